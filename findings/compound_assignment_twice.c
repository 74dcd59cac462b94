int n; int x;
int* f(void) { n++; return &x; }
int run(void) { n = 0; x = 1; *f() += 1; return n; }
