int g(int x) { return x; }
int run(void) { int a = 1; int b = 2; int c = 3; int d = 4; int e = 5; int f = 6; int h = 7; return a + (b + (c + (d + (e + (f + (h + g(1) * g(2))))))); }
