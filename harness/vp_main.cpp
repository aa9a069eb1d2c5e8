#include <dlfcn.h>
#include <cstdio>
int main(int argc, char **argv) { void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argc > 1 ? argv[1] : ""); if (!f) { fprintf(stderr, "no entry\n"); return 3; } f(); fflush(stdout); return 0; }
