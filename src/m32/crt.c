/* Program start and the statically linked parts of the C library for 32-bit explorers: only the
   shared 32-bit C library is installed, not its development files. */
extern int main(int, char**, char**);
extern int __libc_start_main(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*);
__attribute__((noreturn, used)) static void start(int* sp) { __libc_start_main(main, sp[0], (char**)(sp + 1), 0, 0, 0, sp); for (;;) ; }
__asm__(".globl _start\n_start:\n xor %ebp,%ebp\n mov %esp,%eax\n and $-16,%esp\n sub $12,%esp\n push %eax\n call start\n hlt\n");
void* __dso_handle = 0;
/* normally in the static part of the C library */
extern int __cxa_atexit(void (*)(void*), void*, void*); extern int __register_atfork(void (*)(void), void (*)(void), void (*)(void), void*);
int atexit(void (*f)(void)) { return __cxa_atexit((void (*)(void*))f, 0, 0); }
int pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { return __register_atfork(a, b, c, 0); }
