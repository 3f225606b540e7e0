#include <stdio.h>
#include <stdlib.h>
extern int go(const char *, unsigned long);
int main(int c, char **v) {
    FILE *f = fopen(v[1], "rb");
    static char b[1 << 22];
    unsigned long n = f ? fread(b, 1, sizeof b, f) : 0;
    return go(b, n);
}

/* half-precision conversions that core's float parser mentions; the replay program uses no floats */
float __extendhfsf2(unsigned short x) { (void)x; __builtin_trap(); }
unsigned short __truncsfhf2(float x) { (void)x; __builtin_trap(); }
