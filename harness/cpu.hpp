// Presents the processor as one without some of its vector extensions: CPUID is made to fault and a signal
// handler answers it with feature bits removed. Code that chooses an implementation by CPUID then chooses
// the one it would choose on such a processor. Where the kernel or processor cannot do this, nothing changes.
//   1: no AVX-512   2: no AVX2 either   3: no POPCNT either   4: no XSAVE support by the system
#ifndef VH_CPU_HPP
#define VH_CPU_HPP
#include <signal.h>
#include <string.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

namespace vh {
#if defined(__x86_64__) && defined(SYS_arch_prctl)
struct CpuMask {
    static int& level() { static int l = 0; return l; }
    static unsigned long& answered() { static unsigned long n = 0; return n; }
    static struct sigaction& before() { static struct sigaction s; return s; }
    static long faulting(bool on) {   // arch_prctl(ARCH_SET_CPUID, !on), without errno
        long r;
        __asm__ volatile("syscall" : "=a"(r) : "a"((long)SYS_arch_prctl), "D"(0x1012L), "S"(on ? 0L : 1L) : "rcx", "r11", "memory");
        return r;
    }
    static void handler(int sig, siginfo_t* info, void* ctx) {
        ucontext_t* u = static_cast<ucontext_t*>(ctx);
        greg_t* g = u->uc_mcontext.gregs;
        const unsigned char* ip = reinterpret_cast<const unsigned char*>(g[REG_RIP]);
        // A faulting CPUID raises a general protection fault, which carries no address
        if (info->si_code == SI_KERNEL && ip[0] == 0x0f && ip[1] == 0xa2) {
            unsigned leaf = (unsigned)g[REG_RAX], sub = (unsigned)g[REG_RCX], a = leaf, b = 0, c = sub, d = 0;
            faulting(false);
            __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d));
            faulting(true);
            const int l = level();
            if (leaf == 1) {
                if (l >= 2) c &= ~(1u << 28);                    // AVX
                if (l >= 3) c &= ~(1u << 23);                    // POPCNT
                if (l >= 4) c &= ~((1u << 26) | (1u << 27));     // XSAVE, OSXSAVE
            }
            if (leaf == 7 && sub == 0) {
                b &= ~((1u << 16) | (1u << 17) | (1u << 21) | (1u << 26) | (1u << 27) | (1u << 28) | (1u << 30) | (1u << 31));  // AVX-512
                c &= ~((1u << 1) | (1u << 6) | (1u << 11) | (1u << 12) | (1u << 14));
                if (l >= 2) b &= ~(1u << 5);                     // AVX2
            }
            g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d;
            g[REG_RIP] += 2;
            ++answered();
            return;
        }
        struct sigaction& o = before();
        if (o.sa_flags & SA_SIGINFO) o.sa_sigaction(sig, info, ctx);
        else if (o.sa_handler != SIG_DFL && o.sa_handler != SIG_IGN) o.sa_handler(sig);
        else { sigaction(sig, &o, nullptr); }   // returning repeats the access, now without a handler
    }
    static bool apply(int l) {
        struct sigaction s;
        memset(&s, 0, sizeof s);
        s.sa_sigaction = handler; s.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
        if (sigaction(SIGSEGV, &s, &before()) != 0) return false;
        level() = l;
        if (faulting(true) == 0) return true;
        sigaction(SIGSEGV, &before(), nullptr);
        return false;
    }
};
#else
struct CpuMask {
    static unsigned long& answered() { static unsigned long n = 0; return n; }
    static bool apply(int) { return false; }
};
#endif
} // namespace vh
#endif
