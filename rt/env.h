#ifndef VP_ENVH
#define VP_ENVH
#include <sys/socket.h>
#define VP_NFILES 24
#define VP_FSIZE 4096
struct vfile { int exists; char name[128]; size_t len; unsigned char data[VP_FSIZE]; };
extern struct vfile vp_files[VP_NFILES];
extern void (*vp_file_hook)(int op, int f, size_t before); /* after each change of a file: 1 opened for writing, 2 written to (its length before), 3 removed, 4 renamed, 5 closed after writing */
int vp_file_put(const char* n, const void* d, size_t len); int vp_file_index(const char* n); int vp_open_files(void);
struct vp_sock_hooks { int (*socket)(void); int (*connect)(int); int (*accept)(int); ssize_t (*send)(int, const void*, size_t); ssize_t (*sendmsg)(int, const struct msghdr*); ssize_t (*recv)(int, void*, size_t); int (*close)(int); int (*select)(int, fd_set*); int (*shutdown)(int); };
extern struct vp_sock_hooks vp_sock; extern int64_t vp_tick_ns, vp_wall_off; extern int vp_spurious, vp_fair, vp_in_order, vp_one_order, vp_fail_thread, vp_threads_enabled, vp_lock_depth, vp_unlock_errors, vp_strict_unlock, vp_pid, vp_disk_full_after; extern int (*vp_timedwait_hook)(const struct timespec*); extern int (*vp_kill_hook)(pid_t, int); int vp_fire_timeouts(void); int vp_thread_count(void); void vp_wait_until(int (*pred)(void*), void* arg);
#endif
