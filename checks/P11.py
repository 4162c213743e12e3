"""Effect analysis of signal handlers.  The handlers are the functions main registers with signal or sigaction (found on main's
flattened paths, plus every other registration in the program).  Each handler's whole call graph may reach only functions on the
POSIX async-signal-safe list, and the flattened handler may access no structure field and no non-scalar object of the program."""
from mainloop import *

JOBS = ['main main unroll ' + MS]
SAFE = set('''_exit _Exit abort accept access aio_error aio_return aio_suspend alarm bind chdir chmod chown clock_gettime close connect creat dup dup2 execl execle execv execve
faccessat fchdir fchmod fchmodat fchown fchownat fcntl fdatasync fexecve ffs fork fstat fstatat fsync ftruncate futimens getegid geteuid getgid getgroups getpeername getpgrp getpid getppid
getsockname getsockopt getuid htonl htons kill link linkat listen longjmp lseek lstat memccpy memchr memcmp memcpy memmove memset mkdir mkdirat mkfifo mkfifoat mknod mknodat open openat pause
pipe poll posix_trace_event pselect pthread_kill pthread_self pthread_sigmask raise read readlink readlinkat recv recvfrom recvmsg rename renameat rmdir select sem_post send sendmsg sendto setgid
setpgid setsid setsockopt setuid shutdown sigaction sigaddset sigdelset sigemptyset sigfillset sigismember siglongjmp signal sigpause sigpending sigprocmask sigqueue sigset sigsuspend sleep
sockatmark socket socketpair stat stpcpy stpncpy strcat strchr strcmp strcpy strcspn strlen strncat strncmp strncpy strnlen strpbrk strrchr strspn strstr strtok_r symlink symlinkat tcdrain tcflow
tcflush tcgetattr tcgetpgrp tcsendbreak tcsetattr tcsetpgrp time timer_getoverrun timer_gettime timer_settime times umask uname unlink unlinkat utime utimensat utimes wait waitpid write
__errno_location gettid eventfd_write'''.split())


def run(c):
    inst, watches = registrations(c)
    hs = {h for m in inst for h in m.values() if h in c.prog.fns}
    # registrations anywhere else
    for fn in c.prog.fns.values():
        for i in fn.calls('signal', 'sigset', 'bsd_signal'):
            if i.ops[1][0] == 'fn':
                hs.add(i.ops[1][1])
        if any(True for _ in fn.calls('sigaction')):
            for i in fn.instrs():
                for o in i.ops:
                    if o[0] == 'fn' and i.op == 'store':
                        hs.add(o[1])
    hs = sorted(hs)
    if not hs and not any(k != 'fd' for _, _, k in watches):
        c.bad('handlers', 'main', 'no signal handler is installed before the main loop')
    if hs:
        c.load(JOBS + ['h:%s %s' % (h, h) for h in hs])
    for h in hs:
        c.count('signal handlers')
        reach = c.prog.reachable([h])
        for f in sorted(reach):
            c.count('functions reachable from handlers')
            if f in c.prog.fns or f.startswith('llvm.'):
                continue
            if f not in SAFE:
                via = [i.where() for g in reach if g in c.prog.fns for i in c.prog.fns[g].calls(f)]
                c.bad('async-signal-safe', via[0] if via else h, 'signal handler %s can call %s, which is not async-signal-safe' % (h, f))
        for i in c.flat('h:' + h).instrs():
            if i.op == 'call' and i.callee() is None:
                c.bad('async-signal-safe', i.where(), 'signal handler %s calls through a pointer' % h)
            if i.op in ('load', 'store'):
                from sim import static_key
                fn = c.flat('h:' + h)
                o = i.ops[0] if i.op == 'load' else i.ops[1]
                k = static_key(c.prog, fn, o)
                c.count('memory accesses in handlers')
                if k[0] == 'F' and k[1].split('.')[0] not in ('_siginfo_t', 'siginfo_t', 'sigset_t', '__sigset_t', 'sigaction'):
                    c.bad('no-model-access', i.where(), 'signal handler %s accesses %s' % (h, tag(k[1])))
                elif k[0] == 'G' and i.op == 'store':
                    ty = c.prog.globals.get(k[1], {}).get('ty')
                    if not (isinstance(ty, str) and ty.startswith('i')):
                        c.bad('no-model-access', i.where(), 'signal handler %s overwrites %s' % (h, k[1]))
        c.ok('handler %s reaches only async-signal-safe functions and touches no shared structure' % h)
    c.assume('the async-signal-safe list is POSIX.1-2017 2.4.3')
