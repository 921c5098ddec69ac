/* Force-included before every translation unit (symbolic and native builds alike):
   the environment (threads, clock, files, sockets, process) is replaced by the model in env.c. */
#ifndef VP_ENV_H
#define VP_ENV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <ctype.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <limits.h>
#include <inttypes.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/un.h>
#include <sys/syscall.h>
#include <sys/file.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <semaphore.h>
#ifdef __cplusplus
extern "C" {
#endif
#define VPM(r, f, a) r vp_##f a;
VPM(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*)) VPM(int, pthread_mutex_destroy, (pthread_mutex_t*)) VPM(int, pthread_mutex_lock, (pthread_mutex_t*)) VPM(int, pthread_mutex_trylock, (pthread_mutex_t*)) VPM(int, pthread_mutex_unlock, (pthread_mutex_t*))
VPM(int, pthread_mutexattr_init, (pthread_mutexattr_t*)) VPM(int, pthread_mutexattr_destroy, (pthread_mutexattr_t*)) VPM(int, pthread_mutexattr_settype, (pthread_mutexattr_t*, int)) VPM(int, pthread_mutexattr_setrobust, (pthread_mutexattr_t*, int))
VPM(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*)) VPM(int, pthread_cond_destroy, (pthread_cond_t*)) VPM(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*)) VPM(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*)) VPM(int, pthread_cond_signal, (pthread_cond_t*)) VPM(int, pthread_cond_broadcast, (pthread_cond_t*))
VPM(int, pthread_condattr_init, (pthread_condattr_t*)) VPM(int, pthread_condattr_destroy, (pthread_condattr_t*)) VPM(int, pthread_condattr_setclock, (pthread_condattr_t*, clockid_t))
VPM(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)) VPM(int, pthread_join, (pthread_t, void**)) VPM(int, pthread_detach, (pthread_t)) VPM(int, pthread_cancel, (pthread_t)) VPM(pthread_t, pthread_self, (void)) VPM(int, pthread_equal, (pthread_t, pthread_t))
VPM(int, pthread_attr_init, (pthread_attr_t*)) VPM(int, pthread_attr_destroy, (pthread_attr_t*)) VPM(int, pthread_attr_setstacksize, (pthread_attr_t*, size_t)) VPM(int, pthread_attr_setdetachstate, (pthread_attr_t*, int))
VPM(int, pthread_once, (pthread_once_t*, void (*)(void))) VPM(int, pthread_key_create, (pthread_key_t*, void (*)(void*))) VPM(void*, pthread_getspecific, (pthread_key_t)) VPM(int, pthread_setspecific, (pthread_key_t, const void*))
VPM(time_t, time, (time_t*)) VPM(int, clock_gettime, (clockid_t, struct timespec*)) VPM(int, gettimeofday, (struct timeval*, void*)) VPM(int, usleep, (unsigned)) VPM(unsigned, sleep, (unsigned)) VPM(int, nanosleep, (const struct timespec*, struct timespec*))
VPM(FILE*, fopen, (const char*, const char*)) VPM(int, fclose, (FILE*)) VPM(size_t, fread, (void*, size_t, size_t, FILE*)) VPM(size_t, fwrite, (const void*, size_t, size_t, FILE*)) VPM(int, fseek, (FILE*, long, int)) VPM(long, ftell, (FILE*)) VPM(void, rewind, (FILE*)) VPM(int, fflush, (FILE*)) VPM(int, fputc, (int, FILE*)) VPM(int, fputs, (const char*, FILE*)) VPM(char*, fgets, (char*, int, FILE*)) VPM(int, fprintf, (FILE*, const char*, ...)) VPM(int, printf, (const char*, ...)) VPM(int, puts, (const char*)) VPM(int, putchar, (int)) VPM(int, fileno, (FILE*)) VPM(int, remove, (const char*)) VPM(int, unlink, (const char*)) VPM(int, access, (const char*, int)) VPM(int, stat, (const char*, struct stat*)) VPM(int, mkdir, (const char*, mode_t)) VPM(int, chmod, (const char*, mode_t)) VPM(int, rename, (const char*, const char*)) VPM(int, flock, (int, int))
VPM(int, socket, (int, int, int)) VPM(int, setsockopt, (int, int, int, const void*, socklen_t)) VPM(int, getsockopt, (int, int, int, void*, socklen_t*)) VPM(int, connect, (int, const struct sockaddr*, socklen_t)) VPM(int, bind, (int, const struct sockaddr*, socklen_t)) VPM(int, listen, (int, int)) VPM(int, accept, (int, struct sockaddr*, socklen_t*)) VPM(ssize_t, send, (int, const void*, size_t, int)) VPM(ssize_t, sendmsg, (int, const struct msghdr*, int)) VPM(ssize_t, recv, (int, void*, size_t, int)) VPM(int, shutdown, (int, int)) VPM(int, close, (int)) VPM(int, getsockname, (int, struct sockaddr*, socklen_t*)) VPM(int, select, (int, fd_set*, fd_set*, fd_set*, struct timeval*)) VPM(int, fcntl, (int, int, ...)) VPM(int, ioctl, (int, unsigned long, ...)) VPM(ssize_t, read, (int, void*, size_t)) VPM(ssize_t, write, (int, const void*, size_t))
VPM(pid_t, getpid, (void)) VPM(int, kill, (pid_t, int)) VPM(char*, getenv, (const char*)) VPM(int, rand, (void)) VPM(void, srand, (unsigned)) VPM(long, syscall, (long, ...)) VPM(int, pause, (void)) VPM(int, daemon, (int, int))
#ifndef VP_ENV_IMPL
#define pthread_mutex_init vp_pthread_mutex_init
#define pthread_mutex_destroy vp_pthread_mutex_destroy
#define pthread_mutex_lock vp_pthread_mutex_lock
#define pthread_mutex_trylock vp_pthread_mutex_trylock
#define pthread_mutex_unlock vp_pthread_mutex_unlock
#define pthread_mutexattr_init vp_pthread_mutexattr_init
#define pthread_mutexattr_destroy vp_pthread_mutexattr_destroy
#define pthread_mutexattr_settype vp_pthread_mutexattr_settype
#define pthread_mutexattr_setrobust vp_pthread_mutexattr_setrobust
#define pthread_cond_init vp_pthread_cond_init
#define pthread_cond_destroy vp_pthread_cond_destroy
#define pthread_cond_wait vp_pthread_cond_wait
#define pthread_cond_timedwait vp_pthread_cond_timedwait
#define pthread_cond_signal vp_pthread_cond_signal
#define pthread_cond_broadcast vp_pthread_cond_broadcast
#define pthread_condattr_init vp_pthread_condattr_init
#define pthread_condattr_destroy vp_pthread_condattr_destroy
#define pthread_condattr_setclock vp_pthread_condattr_setclock
#define pthread_create vp_pthread_create
#define pthread_join vp_pthread_join
#define pthread_detach vp_pthread_detach
#define pthread_cancel vp_pthread_cancel
#define pthread_self vp_pthread_self
#define pthread_equal vp_pthread_equal
#define pthread_attr_init vp_pthread_attr_init
#define pthread_attr_destroy vp_pthread_attr_destroy
#define pthread_attr_setstacksize vp_pthread_attr_setstacksize
#define pthread_attr_setdetachstate vp_pthread_attr_setdetachstate
#define pthread_once vp_pthread_once
#define pthread_key_create vp_pthread_key_create
#define pthread_getspecific vp_pthread_getspecific
#define pthread_setspecific vp_pthread_setspecific
#define time(x) vp_time(x)
#define clock_gettime vp_clock_gettime
#define gettimeofday vp_gettimeofday
#define usleep vp_usleep
#define sleep vp_sleep
#define nanosleep vp_nanosleep
#define fopen vp_fopen
#define fclose vp_fclose
#define fread vp_fread
#define fwrite vp_fwrite
#define fseek vp_fseek
#define ftell vp_ftell
#define rewind vp_rewind
#define fflush vp_fflush
#define fputc vp_fputc
#define fputs vp_fputs
#define fgets vp_fgets
#define fprintf vp_fprintf
#define printf vp_printf
#define puts vp_puts
#define putchar vp_putchar
#define fileno vp_fileno
#define remove vp_remove
#define unlink vp_unlink
#define access vp_access
#define stat(a, b) vp_stat(a, b)
#define mkdir vp_mkdir
#define chmod vp_chmod
#define rename vp_rename
#define flock(a, b) vp_flock(a, b)
#define socket(a, b, c) vp_socket(a, b, c)
#define setsockopt vp_setsockopt
#define getsockopt vp_getsockopt
#define connect(a, b, c) vp_connect(a, b, c)
#define bind(a, b, c) vp_bind(a, b, c)
#define listen(a, b) vp_listen(a, b)
#define accept(a, b, c) vp_accept(a, b, c)
#define send(a, b, c, d) vp_send(a, b, c, d)
#define sendmsg vp_sendmsg
#define recv(a, b, c, d) vp_recv(a, b, c, d)
#define shutdown(a, b) vp_shutdown(a, b)
#define close(a) vp_close(a)
#define getsockname vp_getsockname
#define select(a, b, c, d, e) vp_select(a, b, c, d, e)
#define fcntl vp_fcntl
#define ioctl vp_ioctl
#define read(a, b, c) vp_read(a, b, c)
#define write(a, b, c) vp_write(a, b, c)
#define getpid vp_getpid
#define kill vp_kill
#define getenv vp_getenv
#define rand vp_rand
#define srand vp_srand
#define syscall vp_syscall
#define pause vp_pause
#define daemon vp_daemon
#endif
#ifdef __cplusplus
}
#endif
#endif
