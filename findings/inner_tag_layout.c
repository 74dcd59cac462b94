struct S { int a; int b; };
struct S g[3];
void set(void) {
    struct S { char x; int y; int b; };
    g[0].b = 7;
}
int run(void) {
    g[0].a = 1; g[0].b = 2; g[1].a = 3; g[1].b = 4; g[2].a = 5; g[2].b = 6;
    set();
    return g[0].b * 100 + g[1].a * 10 + g[1].b;
}
