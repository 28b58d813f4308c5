// The modelled operating system: files, descriptors, sockets, epoll, eventfd, threads, signals, time.
#pragma once
#include "vx.h"
#include <sys/time.h>
enum { WF_NONE, WF_FILE, WF_DIR, WF_EPOLL, WF_EVENT, WF_LISTEN, WF_SOCK, WF_STD };
#ifdef WX_CROWD
enum { W_MAXFD = 160, W_MAXSOCK = 140, W_MAXREG = 160 };
#else
enum { W_MAXFD = 48, W_MAXSOCK = 12, W_MAXREG = 48 };
#endif
enum { W_MAXINODE = 96, W_PGSZ = 4096, W_MAXPG = 20000, W_NAME = 96, W_MAXTHR = 4 };
struct WInode { int used; int nlink; int lock, foreign_lock; /* 1 shared, 2 exclusive: by this process, by another one */ int64_t size; int npg, cpg; uint32_t topg; /* above every page number so far */ uint32_t* pgno; uint8_t** pg; };
struct WDent { int ino; char name[W_NAME]; };
struct WFs { int nino; int nd; WInode ino[W_MAXINODE]; WDent d[W_MAXINODE]; int crash_budget; int crashed; int fault_budget; int faults_done; int mut_ops; uint32_t crash_cnt, fault_cnt; uint64_t crash_at, fault_at; int64_t now_sec; int64_t now_usec; };
struct WFd { int kind; int ref; int64_t pos; int flags; int cloexec; int lk; };
struct WSock { int used; int fd; int port; int queued; int fin; int rst; int gone; int srv_closed; int srv_shut; uint8_t* in; int in_cap, in_len, in_pos; uint8_t* out; int out_cap, out_len, out_pos; int blocked; int wmode; int quota; int wlast; int wcount; };
struct WBind { int fd, af, len, transparent, listening; uint8_t sa[128]; };
struct WReg { int used; int epfd; int fd; uint32_t events; uint64_t data; };
struct WThread { int used; int wait; int64_t arg; int done; void* (*fn)(void*); void* farg; };
struct World {
    WFd fd[W_MAXFD]; WSock s[W_MAXSOCK]; WReg r[W_MAXREG]; WThread t[W_MAXTHR]; int nt; int nreg;
    int lport[16]; int nl; WBind b[16]; int nb; int port_ids; // port_ids: clients connect to the n-th bound listener as port n+1
    int maxin, maxout;
    int stopping;            // the idle hook has ended the run
    int timeout_fire;        // pending epoll_wait calls time out
    int bad_close;           // close() of a descriptor that is not open
    int bad_fd;              // other operation on a descriptor that is not open
    int exit_ok;             // exit() allowed (expected start-up failure)
    int sched_budget;        // preemptions left
    uint32_t point_cnt; uint64_t preempt_at; // the symbolic position of the next preemption
    void (*async)(void); int async_budget, in_async; uint32_t async_cnt; uint64_t async_at; // something that happens at one symbolic point of the server's execution (a signal, an arrival)
    int fault_mask;          // which operations may fail
    int fault_arm, crash_arm;
    int wr_mode;             // default write behaviour of new sockets
    int ep_rotate;           // order of ready events is a choice
    int fork_mode;           // 0 child first, 1 choice between child first and deferred
    int child_pid; int child_status; int child_done; int child_deferred; int in_child; int sigchld_pending;
    int event_count; uint64_t event_val[4]; int accept_errs;
    int trace;
    int pid; int daemon_pid; // the next fork() is the server going to the background under this number
    int tty;
};
extern World W; extern WFs* FS;
enum { WOP_OPEN = 1, WOP_WRITE = 2, WOP_TRUNC = 4, WOP_RENAME = 8, WOP_UNLINK = 16, WOP_CP = 32, WOP_SYNC = 64, WOP_SEEK = 128, WOP_READ = 256, WOP_SHORT = 512, WOP_FORK = 1024 };
// world control
void w_init_fs(void);               // once per path: fresh disk
void w_init_proc(void);             // once per process: fresh descriptors, threads, signals
extern "C" int hx_idle(void);       // provided by the harness: perform the next client action; 0 = nothing more to do
void w_advance(int64_t sec);        // move the clock and deliver SIGALRM
void w_tick(void);                  // deliver SIGALRM
void w_signal(int sig); int w_handled(int sig); // is a handler installed
int w_open_fds(void); int w_open_kind(int kind);
int w_inode_of(const char* path);
int w_exists(const char* path);
int64_t w_size(const char* path);
int w_value_files(void);            // files that are neither the block file nor an index
int w_locked(const char* path); void w_foreign_lock(const char* path, int how); // advisory locks
int w_peek(const char* path, int64_t off, void* buf, int n);
// client API
int cl_connect(int port);
void cl_send(int c, const void* b, int n);
void cl_puts(int c, const char* s);
void cl_fin(int c);                 // half close
void cl_close(int c);               // close
void cl_reset(int c);
int cl_pending(int c);              // bytes the server has not read yet
int cl_open(int c);                 // server side still open
static const int PORT_CACHE = 80, PORT_MON = 81;
// the server: its own main(), started with -b 0.0.0.0:80 -B 0.0.0.0:81 and these options
struct ServerCfg { const char* path; uint64_t max_size; int clear_percent; };
void server_run(const ServerCfg& c);
int server_main(int argc, const char* const* argv);
