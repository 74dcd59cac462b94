int run(void) { int a[8]; int* p = a; int* q = &a[4]; return (p - q) / 2 == -2; }
