#include "world.h"
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <sys/file.h>
World W; WFs* FS;
static int w_errno; static void (*w_sig[65])(int);
#define E_(x) do { w_errno = (x); return -1; } while (0)
enum { WT_RUN, WT_EPOLL, WT_JOIN, WT_MUTEX, WT_DONE };

// ------------------------------------------------------------------ set-up
void w_init_fs(void) { FS = (WFs*)vx_shared_alloc(sizeof(WFs)); FS->now_sec = 1000000; }
void w_init_proc(void) {
    vx_steps_reset();
    memset(&W, 0, sizeof W); memset(w_sig, 0, sizeof w_sig); w_errno = 0;
    for (int i = 0; i < 3; i++) W.fd[i].kind = WF_STD;
    if (FS) for (int i = 0; i < W_MAXINODE; i++) FS->ino[i].lock = 0;
    W.nt = 1; W.t[0].used = 1; W.maxin = 20480; W.maxout = 20480; W.pid = 4242;
}
// ------------------------------------------------------------------ scheduling
static int th_ready(int t);
static int next_ready(int from) { for (int i = 1; i <= W.nt; i++) { int t = (from + i) % W.nt; if (W.t[t].used && !W.t[t].done && th_ready(t)) return t; } return -1; }
static void w_sched(void) { // give up the processor until this thread can run
    int me = vx_thread_self();
    for (;;) {
        int t = next_ready(me); 
        if (t >= 0 && t != me && W.sched_budget > 0) { // any ready thread may be next
            int c[W_MAXTHR], n = 0; for (int i = 0; i < W.nt; i++) if (W.t[i].used && !W.t[i].done && th_ready(i)) c[n++] = i;
            if (n > 1) t = c[vx_choose(n, "sched")];
        }
        if (t == me) return;
        if (t >= 0) { vx_thread_switch(t); if (th_ready(me)) return; continue; }
        if (W.stopping) { vx_fail("deadlock: no thread can make progress"); vx_stop(); }
        vx_steps_reset();
        if (!hx_idle()) { W.stopping = 1; w_signal(SIGTERM); }
    }
}
static int w_preempt_here(void) { if (!W.point_cnt++) W.preempt_at = vx_range(1, 4095, "preempt at point"); if (W.preempt_at != W.point_cnt) return 0; W.point_cnt = 0; return 1; }
static void w_block(int kind, int64_t arg) { int me = vx_thread_self(); W.t[me].wait = kind; W.t[me].arg = arg; if (!th_ready(me)) w_sched(); else if (W.nt > 1 && W.sched_budget > 0) { int n = next_ready(me); if (n != me && w_preempt_here()) { W.sched_budget--; vx_thread_switch(n); if (!th_ready(me)) w_sched(); } } W.t[me].wait = WT_RUN; }
static void w_async(void) { if (!W.async_cnt++) W.async_at = vx_range(1, 4095, "event at point"); if (W.async_at != W.async_cnt) return; W.async_cnt = 0; W.async_budget--; W.in_async = 1; W.async(); W.in_async = 0; }
static void w_point(void) { // a place where another thread may run instead
    if (W.async && W.async_budget > 0 && !W.in_async && W.t[vx_thread_self()].used) w_async();
    if (W.nt < 2 || W.sched_budget <= 0) return; int me = vx_thread_self(); if (!W.t[me].used) return; int c[W_MAXTHR], n = 0; c[n++] = me;
    for (int i = 0; i < W.nt; i++) if (i != me && W.t[i].used && !W.t[i].done && th_ready(i)) c[n++] = i;
    if (n < 2) return; if (!w_preempt_here()) return; int k = 1 + (int)vx_choose(n - 1, "run thread"); if (k) { W.sched_budget--; vx_thread_switch(c[k]); if (!th_ready(me)) w_sched(); }
}
extern "C" void w_sched_point(void) { w_point(); }
static void th_body(void* p) { WThread* t = (WThread*)p; t->fn(t->farg); t->done = 1; t->wait = WT_DONE; for (;;) { int n = next_ready(vx_thread_self()); if (n >= 0) vx_thread_switch(n); else w_sched(); } }

// ------------------------------------------------------------------ faults and crashes
// The position of the fault / crash / preemption is one symbolic number, compared with a counter at every candidate operation.
static int w_fault(int op) {
    if (!W.fault_arm || !(W.fault_mask & op) || FS->fault_budget <= 0) return 0;
    if (!FS->fault_cnt++) FS->fault_at = vx_range(1, 255, "fault at operation"); if (FS->fault_at != FS->fault_cnt) return 0;
    FS->fault_budget--; FS->faults_done++; FS->fault_cnt = 0; vx_note_int("disk fault injected in operation kind", op); return 1; }
static void w_crash(void) {
    FS->mut_ops++; if (!W.crash_arm || FS->crash_budget <= 0) return;
    if (!FS->crash_cnt++) FS->crash_at = vx_range(1, 255, "crash before operation"); if (FS->crash_at != FS->crash_cnt) return;
    FS->crash_budget--; FS->crashed++; FS->crash_cnt = 0; vx_note_int("process killed before file operation number", FS->mut_ops); vx_proc_exit(137); }

// ------------------------------------------------------------------ files
static void norm(const char* p, char* o) { int n = 0; char prev = 0; for (; *p; p++) { if (*p == '/' && prev == '/') continue; prev = *p; if (n < W_NAME - 1) o[n++] = *p; } while (n > 1 && o[n - 1] == '/') n--; o[n] = 0; }
static int dfind(const char* nm) { for (int i = 0; i < FS->nd; i++) if (FS->d[i].ino >= 0 && !strcmp(FS->d[i].name, nm)) return i; return -1; }
int w_inode_of(const char* path) { char b[W_NAME]; norm(path, b); int d = dfind(b); return d < 0 ? -1 : FS->d[d].ino; }
int w_exists(const char* path) { return w_inode_of(path) >= 0; }
int64_t w_size(const char* path) { int i = w_inode_of(path); return i < 0 ? -1 : FS->ino[i].size; }
static int inew(void) { if (FS->nino >= W_MAXINODE) { vx_unsupported("too many files"); vx_kill(); } int i = FS->nino++; FS->ino[i].used = 1; return i; }
static int dnew(const char* nm, int ino) { int k = -1; for (int i = 0; i < FS->nd; i++) if (FS->d[i].ino < 0) { k = i; break; } if (k < 0) { if (FS->nd >= W_MAXINODE) { vx_unsupported("too many names"); vx_kill(); } k = FS->nd++; } FS->d[k].ino = ino; strcpy(FS->d[k].name, nm); FS->ino[ino].nlink++; return k; }
static uint8_t* ipage(WInode* n, uint32_t no, int make) { if (no < (uint32_t)n->npg && n->pgno[no] == no) return n->pg[no]; if (no < n->topg) for (int i = 0; i < n->npg; i++) if (n->pgno[i] == no) return n->pg[i]; if (!make) return nullptr; if (n->npg >= W_MAXPG) { vx_unsupported("file too large for the model"); vx_kill(); } if (n->npg == n->cpg) { int c = n->cpg ? n->cpg * 4 : 16; uint32_t* a = (uint32_t*)vx_shared_alloc(c * sizeof *a); uint8_t** b = (uint8_t**)vx_shared_alloc(c * sizeof *b); for (int j = 0; j < n->npg; j++) { a[j] = n->pgno[j]; b[j] = n->pg[j]; } n->pgno = a; n->pg = b; n->cpg = c; } if (no >= n->topg) n->topg = no + 1; int i = n->npg++; n->pgno[i] = no; n->pg[i] = (uint8_t*)vx_shared_alloc(W_PGSZ); return n->pg[i]; }
static void itrunc(WInode* n, int64_t sz) {
    if (sz < n->size) { for (int i = 0; i < n->npg; i++) { int64_t b = (int64_t)n->pgno[i] * W_PGSZ; if (b >= sz) { n->npg--; n->pgno[i] = n->pgno[n->npg]; n->pg[i] = n->pg[n->npg]; i--; } else if (b + W_PGSZ > sz) memset(n->pg[i] + (sz - b), 0, W_PGSZ - (sz - b)); } }
    n->size = sz;
}
static int iread(WInode* n, int64_t pos, void* buf, int len) { if (pos >= n->size || len <= 0) return 0; if (pos + len > n->size) len = (int)(n->size - pos); int k = 0; while (k < len) { int64_t p = pos + k; int o = (int)(p % W_PGSZ), m = W_PGSZ - o; if (m > len - k) m = len - k; uint8_t* g = ipage(n, (uint32_t)(p / W_PGSZ), 0); if (g) memcpy((char*)buf + k, g + o, m); else memset((char*)buf + k, 0, m); k += m; } return len; }
static void iwrite(WInode* n, int64_t pos, const void* buf, int len) { int k = 0; while (k < len) { int64_t p = pos + k; int o = (int)(p % W_PGSZ), m = W_PGSZ - o; if (m > len - k) m = len - k; memcpy(ipage(n, (uint32_t)(p / W_PGSZ), 1) + o, (const char*)buf + k, m); k += m; } if (pos + len > n->size) n->size = pos + len; }
int w_peek(const char* path, int64_t off, void* buf, int n) { int i = w_inode_of(path); return i < 0 ? -1 : iread(&FS->ino[i], off, buf, n); }
int w_value_files(void) { int c = 0; for (int i = 0; i < FS->nd; i++) if (FS->d[i].ino >= 0) { const char* p = FS->d[i].name; int f = 0; for (; *p; p++) if (!strncmp(p, "/files/", 7)) f = 1; c += f; } return c; }
static int fdnew(int kind, int ref) { for (int i = 0; i < W_MAXFD; i++) if (W.fd[i].kind == WF_NONE) { W.fd[i].kind = kind; W.fd[i].ref = ref; W.fd[i].pos = 0; W.fd[i].flags = 0; W.fd[i].lk = 0; return i; } E_(EMFILE); }
static WFd* FDp(int fd) { if (fd < 0 || fd >= W_MAXFD || W.fd[fd].kind == WF_NONE) return nullptr; return &W.fd[fd]; }
int w_open_kind(int kind) { int n = 0; for (int i = 0; i < W_MAXFD; i++) if (W.fd[i].kind == kind) n++; return n; }
int w_open_fds(void) { int n = 0; for (int i = 0; i < W_MAXFD; i++) if (W.fd[i].kind != WF_NONE) n++; return n; }
extern "C" {
int* w_errno_loc(void) { return &w_errno; }
int w_open(const char* path, int flags, ...) {
    w_point(); if (!strcmp(path, "/dev/null")) return fdnew(WF_STD, 0);
    char b[W_NAME]; norm(path, b); int d = dfind(b); 
    if (flags & O_CREAT) w_crash();
    if (w_fault(WOP_OPEN)) E_((flags & O_CREAT) ? ENOSPC : EIO);
    if (d >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) E_(EEXIST);
    if (d < 0) { if (!(flags & O_CREAT)) E_(ENOENT); d = dnew(b, inew()); }
    int ino = FS->d[d].ino; if (flags & O_TRUNC) itrunc(&FS->ino[ino], 0);
    int fd = fdnew(WF_FILE, ino); if (fd >= 0) { W.fd[fd].flags = flags & (O_ACCMODE | O_APPEND); FS->ino[ino].used++; }
    return fd;
}
int w_creat(const char* p, mode_t m) { return w_open(p, O_CREAT | O_TRUNC | O_WRONLY, m); }
int w_unlink(const char* path) { char b[W_NAME]; norm(path, b); int d = dfind(b); if (d < 0) E_(ENOENT); w_crash(); if (w_fault(WOP_UNLINK)) E_(EIO); FS->ino[FS->d[d].ino].nlink--; FS->d[d].ino = -1; return 0; }
int w_rename(const char* a, const char* c) { char x[W_NAME], y[W_NAME]; norm(a, x); norm(c, y); int d = dfind(x); if (d < 0) E_(ENOENT); w_crash(); if (w_fault(WOP_RENAME)) E_(EIO); int e = dfind(y); if (e == d) return 0; if (e >= 0) { FS->ino[FS->d[e].ino].nlink--; FS->d[e].ino = -1; } strcpy(FS->d[d].name, y); return 0; }
int w_link(const char* a, const char* c) { char x[W_NAME], y[W_NAME]; norm(a, x); norm(c, y); int d = dfind(x); if (d < 0) E_(ENOENT); if (dfind(y) >= 0) E_(EEXIST); w_crash(); if (w_fault(WOP_CP)) E_(EIO); dnew(y, FS->d[d].ino); return 0; }
int w_mkdir(const char*, mode_t) { return 0; }
int w_rmdir(const char*) { return 0; }
int w_access(const char* path, int) { const char* b = path; int n = (int)strlen(b); if (n >= 3 && b[n - 3] == '/' && b[n - 2] >= 'A' && b[n - 2] <= 'Z' && b[n - 1] >= 'A' && b[n - 1] <= 'Z') return 0; char m[W_NAME]; norm(path, m); if (dfind(m) >= 0) return 0; E_(ENOENT); }
static int dostat(int ino, struct stat* st) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0600; st->st_size = FS->ino[ino].size; st->st_ino = ino + 1; st->st_nlink = FS->ino[ino].nlink; st->st_blksize = 4096; st->st_blocks = FS->ino[ino].npg * 8; return 0; }
int w_fstat(int fd, struct stat* st) { WFd* f = FDp(fd); if (!f || f->kind != WF_FILE) E_(EBADF); return dostat(f->ref, st); }
int w_stat(const char* p, struct stat* st) { int i = w_inode_of(p); if (i < 0) E_(ENOENT); return dostat(i, st); }
static void bad_fd(int fd) { if (fd >= 0) W.bad_fd++; } // -1 after a failed open is refused by the kernel and harms nobody
int64_t w_lseek(int fd, int64_t off, int wh) { WFd* f = FDp(fd); if (!f) { bad_fd(fd); E_(EBADF); } if (f->kind != WF_FILE) E_(ESPIPE); if (w_fault(WOP_SEEK)) E_(EIO); int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->pos + off : FS->ino[f->ref].size + off; if (p < 0) E_(EINVAL); f->pos = p; return p; }
int w_ftruncate(int fd, int64_t len) { WFd* f = FDp(fd); if (!f) { bad_fd(fd); E_(EBADF); } if (f->kind != WF_FILE) E_(EINVAL); if (len < 0) E_(EINVAL); w_crash(); if (w_fault(WOP_TRUNC)) E_(ENOSPC); itrunc(&FS->ino[f->ref], len); return 0; }
int w_fallocate(int fd, off_t off, off_t len) { WFd* f = FDp(fd); if (!f) return EBADF; w_crash(); if (w_fault(WOP_TRUNC)) return ENOSPC; if (off + len > FS->ino[f->ref].size) itrunc(&FS->ino[f->ref], off + len); return 0; }
int w_fdatasync(int fd) { WFd* f = FDp(fd); if (!f) E_(EBADF); if (w_fault(WOP_SYNC)) E_(EIO); return 0; }
int w_flock(int fd, int op) {
    WFd* f = FDp(fd); if (!f || f->kind != WF_FILE) { bad_fd(fd); E_(EBADF); } WInode* t = &FS->ino[f->ref]; int want = (op & 3) == LOCK_SH ? 1 : (op & 3) == LOCK_EX ? 2 : 0;
    if (op & LOCK_UN) { if (f->lk) { f->lk = 0; t->lock = 0; } return 0; } if (!want) E_(EINVAL);
    if (t->foreign_lock && (t->foreign_lock == 2 || want == 2)) { if (op & LOCK_NB) E_(EAGAIN); vx_proc_exit(99); } // waits for as long as the other process runs
    t->lock = want; f->lk = 1; return 0; }
extern "C++" int w_locked(const char* path) { int i = w_inode_of(path); return i < 0 ? 0 : FS->ino[i].lock; }
extern "C++" void w_foreign_lock(const char* path, int how) { int i = w_inode_of(path); if (i >= 0) FS->ino[i].foreign_lock = how; }
static WSock* sk(WFd* f) { return &W.s[f->ref]; }
static void sock_chk(WSock*) {}
ssize_t w_read(int fd, void* buf, size_t n) {
    w_point(); WFd* f = FDp(fd); if (!f) { bad_fd(fd); E_(EBADF); }
    if (f->kind == WF_FILE) { if (w_fault(WOP_READ)) E_(EIO); int k = iread(&FS->ino[f->ref], f->pos, buf, (int)n); f->pos += k; return k; }
    if (f->kind == WF_EVENT) { if (n < 8) E_(EINVAL); if (!W.event_val[f->ref]) E_(EAGAIN); memcpy(buf, &W.event_val[f->ref], 8); W.event_val[f->ref] = 0; return 8; }
    if (f->kind == WF_SOCK) { WSock* s = sk(f); sock_chk(s); if (s->rst) { E_(ECONNRESET); } int av = s->in_len - s->in_pos; if (av == 0) { if (s->fin) return 0; E_(EAGAIN); } if (n == 0) return 0; int k = (size_t)av < n ? av : (int)n; memcpy(buf, s->in + s->in_pos, k); s->in_pos += k; return k; }
    E_(EINVAL);
}
ssize_t w_pread(int fd, void* buf, size_t n, off_t pos) { WFd* f = FDp(fd); if (!f || f->kind != WF_FILE) E_(EBADF); if (w_fault(WOP_READ)) E_(EIO); return iread(&FS->ino[f->ref], pos, buf, (int)n); }
static int fwr(WFd* f, int64_t pos, const void* buf, size_t n) { // returns bytes written or -1
    if ((f->flags & O_ACCMODE) == O_RDONLY) E_(EBADF);
    w_crash(); if (n == 0) return 0; if (w_fault(WOP_WRITE)) E_(ENOSPC); if (n > 1 && w_fault(WOP_SHORT)) n = n / 2;
    iwrite(&FS->ino[f->ref], pos, buf, (int)n); return (int)n;
}
// how much a socket accepts at this write
static int some_bytes(int n) { if (n <= 300) return (int)vx_concretize(vx_range(1, n, "bytes accepted")); int c[16], k = 0; for (int i = 1; i <= 4; i++) { c[k++] = i; c[k++] = n - i; } c[k++] = n / 4; c[k++] = n / 2; c[k++] = n; if (n > 4097) { c[k++] = 4095; c[k++] = 4096; c[k++] = 4097; } return c[vx_choose(k, "bytes accepted")]; }
static int sock_accepts(WSock* s, int n) {
    s->wcount++;
    switch (s->wmode) {
    case 0: return n;
    case 1: { int k = vx_choose(4, "socket accepts"); int r = k == 0 ? n : k == 1 ? 0 : k == 2 ? 1 : n / 2; if (r == 0 && s->wlast == 0) r = 1; s->wlast = r; return r; } // all, none, one byte, half
    case 2: { int r = (s->wcount & 1) ? 0 : 1; return r; } // alternately nothing and one byte
    case 3: { int k = vx_choose(2, "socket accepts"); return k ? n : n > 1 ? n / 2 : n; }
    case 4: return s->wcount <= 1 ? some_bytes(n) : n; // the first write stops at any byte
    case 5: return 0; // never (stalled client)
    case 7: { int r = n < s->quota ? n : s->quota; s->quota -= r; return r; } // takes a number of bytes, then nothing until told
    case 8: { if (s->wlast >= 2) return n; int k = vx_choose(3, "socket accepts"); if (k == 0) return n; s->wlast++; return k == 1 ? 0 : some_bytes(n); } // two disturbed writes
    case 6: { if (s->wlast) return n; int k = vx_choose(3, "socket accepts"); if (k == 0) return n; s->wlast = 1; return k == 1 ? 0 : some_bytes(n); } // one disturbed write at any point
    }
    return n;
}
static int sock_room(WSock* s) { return s->wmode != 5 && !(s->wmode == 7 && s->quota <= 0); }
static void sout(WSock* s, const void* b, int n) { if (s->gone) { s->rst = 1; return; } if (s->out_len + n > s->out_cap && s->out_pos) { memmove(s->out, s->out + s->out_pos, s->out_len - s->out_pos); s->out_len -= s->out_pos; s->out_pos = 0; } if (s->out_len + n > s->out_cap) { vx_unsupported("output capture full"); vx_kill(); } memcpy(s->out + s->out_len, b, n); s->out_len += n; }
ssize_t w_write(int fd, const void* buf, size_t n) {
    w_point(); WFd* f = FDp(fd); if (!f) { bad_fd(fd); E_(EBADF); }
    if (f->kind == WF_FILE) { int64_t pos = (f->flags & O_APPEND) ? FS->ino[f->ref].size : f->pos; int k = fwr(f, pos, buf, n); if (k > 0) f->pos = pos + k; return k; }
    if (f->kind == WF_EVENT) { uint64_t v; if (n < 8) E_(EINVAL); memcpy(&v, buf, 8); W.event_val[f->ref] += v; return 8; }
    if (f->kind == WF_SOCK) { WSock* s = sk(f); sock_chk(s); if (s->rst || s->srv_shut) E_(EPIPE); if (n == 0) return 0; int k = sock_accepts(s, (int)n); if (k == 0) E_(EAGAIN); sout(s, buf, k); return k; }
    if (f->kind == WF_STD) return n;
    E_(EINVAL);
}
ssize_t w_pwrite(int fd, const void* buf, size_t n, off_t pos) { WFd* f = FDp(fd); if (!f || f->kind != WF_FILE) E_(EBADF); return fwr(f, pos, buf, n); }
ssize_t w_send(int fd, const void* b, size_t n, int) { return w_write(fd, b, n); }
ssize_t w_recv(int fd, void* b, size_t n, int) { return w_read(fd, b, n); }
ssize_t w_writev(int fd, const struct iovec* v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t k = w_write(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; } return t; }
ssize_t w_sendfile(int out, int in, off_t* off, size_t n) {
    w_point(); WFd* o = FDp(out); WFd* i = FDp(in); if (!o || !i) { if (!o) bad_fd(out); if (!i) bad_fd(in); E_(EBADF); } if (o->kind != WF_SOCK || i->kind != WF_FILE) E_(EINVAL);
    WSock* s = sk(o); sock_chk(s); if (s->rst || s->srv_shut) E_(EPIPE); int64_t pos = off ? *off : i->pos; WInode* nd = &FS->ino[i->ref]; int64_t av = pos < nd->size ? nd->size - pos : 0; if ((int64_t)n > av) n = av; if (n == 0) return 0; if (w_fault(WOP_READ)) E_(EIO);
    if ((int)n > W.maxout) n = W.maxout; int k = sock_accepts(s, (int)n); if (k == 0) E_(EAGAIN);
    if (s->gone) s->rst = 1; else { if (s->out_len + k > s->out_cap && s->out_pos) { memmove(s->out, s->out + s->out_pos, s->out_len - s->out_pos); s->out_len -= s->out_pos; s->out_pos = 0; } if (s->out_len + k > s->out_cap) { vx_unsupported("output capture full"); vx_kill(); } iread(nd, pos, s->out + s->out_len, k); s->out_len += k; }
    if (off) *off = pos + k; else i->pos = pos + k; return k;
}
int w_close(int fd) {
    w_point(); WFd* f = FDp(fd); if (!f) { W.bad_close++; E_(EBADF); }
    if (f->kind == WF_SOCK) { sk(f)->srv_closed = 1; sk(f)->fd = -1; }
    if (f->kind == WF_FILE && f->lk) { int o = 0; for (int i = 0; i < W_MAXFD; i++) o += i != fd && W.fd[i].kind == WF_FILE && W.fd[i].ref == f->ref && W.fd[i].lk; if (!o) FS->ino[f->ref].lock = 0; f->lk = 0; }
    if (f->kind == WF_LISTEN) W.lport[f->ref] = -1;
    for (int i = 0; i < W.nreg; i++) if (W.r[i].used && (W.r[i].fd == fd || W.r[i].epfd == fd)) W.r[i].used = 0;
    f->kind = WF_NONE; return 0;
}
int w_dup(int fd) { WFd* f = FDp(fd); if (!f) E_(EBADF); int n = fdnew(f->kind, f->ref); if (n >= 0) { W.fd[n].pos = f->pos; W.fd[n].flags = f->flags; } return n; }
int w_shutdown(int fd, int how) { WFd* f = FDp(fd); if (!f || f->kind != WF_SOCK) E_(EBADF); if (how != 0) sk(f)->srv_shut = 1; return 0; }
int w_fcntl(int fd, int cmd, ...) { WFd* f = FDp(fd); if (!f) { E_(EBADF); } va_list ap; va_start(ap, cmd); int a = va_arg(ap, int); va_end(ap); if (cmd == F_GETFL) return f->flags; if (cmd == F_SETFL) { f->flags = a; return 0; } return 0; }
int w_system(const char* cmd) { // "cp A B"
    if (strncmp(cmd, "cp ", 3)) { vx_unsupported("system() with another command"); vx_kill(); }
    char a[W_NAME], b[W_NAME]; int n = 0; const char* p = cmd + 3; while (*p == ' ' || *p == '-') { if (*p == '-') while (*p && *p != ' ') p++; else p++; } while (*p && *p != ' ' && n < W_NAME - 1) a[n++] = *p++; a[n] = 0; while (*p == ' ') p++; n = 0; while (*p && *p != ' ' && n < W_NAME - 1) b[n++] = *p++; b[n] = 0;
    char x[W_NAME], y[W_NAME]; norm(a, x); norm(b, y); int d = dfind(x); if (d < 0) return 256; w_crash(); if (w_fault(WOP_CP)) return 256;
    int e = dfind(y); int ino; if (e >= 0) { ino = FS->d[e].ino; itrunc(&FS->ino[ino], 0); } else { ino = inew(); dnew(y, ino); }
    WInode* s = &FS->ino[FS->d[d].ino]; WInode* t = &FS->ino[ino];
    if (w_fault(WOP_SHORT)) { int64_t h = s->size / 2; for (int i = 0; i < s->npg; i++) if ((int64_t)s->pgno[i] * W_PGSZ < h) iwrite(t, (int64_t)s->pgno[i] * W_PGSZ, s->pg[i], W_PGSZ); itrunc(t, h); return 256; }
    if (W.crash_arm && FS->crash_budget > 0) w_crash(); // killed while copying: the target exists but is empty
    for (int i = 0; i < s->npg; i++) { uint8_t* g = ipage(t, s->pgno[i], 1); memcpy(g, s->pg[i], W_PGSZ); } t->size = s->size; return 0;
}
int w_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = FS->now_sec; tv->tv_usec = FS->now_usec; return 0; }
time_t w_time(time_t* t) { if (t) *t = FS->now_sec; return FS->now_sec; }
int w_setitimer(int, const void*, void*) { return 0; }
void* w_signal_set(int s, void* h) { void* o = (void*)w_sig[s]; w_sig[s] = (void (*)(int))h; return o; }
int w_sigaction(int s, const struct sigaction* a, struct sigaction* o) { if (o) o->sa_handler = w_sig[s]; if (a) w_sig[s] = a->sa_handler; return 0; }
int w_getpid(void) { return W.pid; }
int w_setsid(void) { return W.pid; }
unsigned w_sleep(unsigned) { return 0; }
int w_usleep(unsigned) { int me = vx_thread_self(); int n = next_ready(me); if (n >= 0 && n != me) vx_thread_switch(n); return 0; }
int w_gethostname(char* b, size_t n) { strncpy(b, "host", n); return 0; }
// ---- processes
int w_fork(void) {
    if (w_fault(WOP_FORK)) E_(ENOMEM);
    if (W.daemon_pid) { int p = W.daemon_pid; W.daemon_pid = 0; if (vx_fork(0)) return p; W.pid = p; return 0; }
    int crashes = FS->crashed; int mode = W.fork_mode ? (int)vx_choose(2, "flush child runs later") : 0;
    int pid = vx_fork(mode);
    if (pid == 0) { W.in_child = 1; W.nt = 1; return 0; }
    if (crashes != FS->crashed && vx_choose(2, "the parent is killed too")) vx_proc_exit(137);
    W.child_pid = pid; W.child_done = mode == 0; W.child_deferred = mode == 1; W.sigchld_pending = mode == 0; return pid;
}
void w_exit_now(int code) { vx_proc_exit(code); }
void w_exit(int code) { if (!W.exit_ok) { vx_note_int("exit code", code); vx_fail("the server process exits"); } vx_proc_exit(code); }
void w_abort(void) { vx_fail("the server process aborts"); vx_proc_exit(134); }
int w_waitpid(int pid, int* st, int fl) {
    if (W.child_deferred && !(fl & WNOHANG)) { W.child_deferred = 0; int crashes = FS->crashed; vx_proc_resume(W.child_pid); W.child_done = 1; if (crashes != FS->crashed && vx_choose(2, "the parent is killed too")) vx_proc_exit(137); }
    if (W.child_done && (pid == -1 || pid == W.child_pid)) { if (st) *st = 0; int p = W.child_pid; W.child_done = 0; W.child_pid = 0; W.sigchld_pending = 0; return p; }
    if (W.child_deferred) return 0;
    E_(ECHILD);
}
// ---- threads
int w_pthread_create(uint64_t* id, void*, void* (*fn)(void*), void* arg) { if (W.nt >= W_MAXTHR) E_(EAGAIN); WThread* t = &W.t[W.nt]; t->used = 1; t->fn = fn; t->farg = arg; t->done = 0; t->wait = WT_RUN; W.nt++; int k = vx_thread_create(th_body, t); *id = k; w_point(); return 0; }
int w_pthread_join(uint64_t id, void**) { w_block(WT_JOIN, (int64_t)id); return 0; }
int w_pthread_detach(uint64_t) { return 0; }
struct wmutex { int owner1; };
int w_mutex_init(wmutex* m, void*) { m->owner1 = 0; return 0; }
int w_mutex_destroy(wmutex*) { return 0; }
int w_mutex_lock(wmutex* m) { int me = vx_thread_self(); w_point(); if (m->owner1 == me + 1) { vx_fail("deadlock: a thread locks a mutex it already holds"); vx_stop(); } while (m->owner1) { w_block(WT_MUTEX, (int64_t)(intptr_t)m); } m->owner1 = me + 1; return 0; }
int w_mutex_unlock(wmutex* m) { m->owner1 = 0; w_point(); return 0; }
// ---- sockets
static WBind* wbind(int fd) { for (int i = 0; i < W.nb; i++) if (W.b[i].fd == fd) return &W.b[i]; return nullptr; }
int w_socket(int af, int, int) { int fd = fdnew(WF_LISTEN, -1); if (fd >= 0) { if (W.nb >= 16) { vx_unsupported("too many listeners"); vx_kill(); } WBind* b = &W.b[W.nb++]; memset(b, 0, sizeof *b); b->fd = fd; b->af = af; } return fd; }
int w_setsockopt(int fd, int level, int opt, const void* v, unsigned) { if (!FDp(fd)) E_(EBADF); WBind* b = wbind(fd); if (b && ((level == 0 && opt == 19) || (level == 41 && opt == 75))) b->transparent = *(const int*)v; return 0; }
int w_bind(int fd, const void* a, unsigned len) { WFd* f = FDp(fd); if (!f) E_(EBADF); if (W.nl >= 16) { vx_unsupported("too many listeners"); vx_kill(); } const uint8_t* p = (const uint8_t*)a; int port = p[2] << 8 | p[3]; if (p[0] == 1) port = 1; if (W.port_ids) port = W.nl + 1; f->ref = W.nl; W.lport[W.nl++] = port; WBind* b = wbind(fd); if (b) { b->len = len < sizeof b->sa ? len : (int)sizeof b->sa; memcpy(b->sa, a, b->len); } return 0; }
int w_listen(int fd, int) { WBind* b = wbind(fd); if (b) b->listening = 1; return FDp(fd) ? 0 : -1; }
int w_chmod(const char*, mode_t) { return 0; }
int w_accept4(int fd, void*, void*, int) {
    w_point(); WFd* f = FDp(fd); if (!f || f->kind != WF_LISTEN) E_(EBADF);
    if (W.accept_errs > 0) { W.accept_errs--; E_(ECONNABORTED); }
    for (int i = 0; i < W_MAXSOCK; i++) if (W.s[i].used && W.s[i].queued && W.s[i].port == W.lport[f->ref]) { int n = fdnew(WF_SOCK, i); if (n < 0) return -1; W.s[i].queued = 0; W.s[i].fd = n; return n; }
    E_(EAGAIN);
}
int w_accept(int fd, void* a, void* l) { return w_accept4(fd, a, l, 0); }
int w_eventfd(unsigned v, int) { int k = W.event_count++; W.event_val[k] = v; return fdnew(WF_EVENT, k); }
int w_epoll_create1(int) { return fdnew(WF_EPOLL, 0); }
int w_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
    w_point(); WFd* e = FDp(ep); if (!e || e->kind != WF_EPOLL || !FDp(fd)) { E_(EBADF); }
    int k = -1; for (int i = 0; i < W.nreg; i++) if (W.r[i].used && W.r[i].epfd == ep && W.r[i].fd == fd) k = i;
    if (op == EPOLL_CTL_ADD) { if (k >= 0) E_(EEXIST); if (w_fault(2048)) E_(ENOMEM); for (int i = 0; i < W_MAXREG; i++) if (!W.r[i].used) { k = i; break; } if (k < 0) { vx_unsupported("too many registrations"); vx_kill(); } if (k >= W.nreg) W.nreg = k + 1; W.r[k].used = 1; W.r[k].epfd = ep; W.r[k].fd = fd; W.r[k].events = ev->events; W.r[k].data = ev->data.u64; return 0; }
    if (k < 0) E_(ENOENT);
    if (op == EPOLL_CTL_DEL) { W.r[k].used = 0; return 0; }
    W.r[k].events = ev->events; W.r[k].data = ev->data.u64; return 0;
}
static uint32_t poll_fd(int fd) {
    WFd* f = FDp(fd); if (!f) return 0;
    if (f->kind == WF_EVENT) return W.event_val[f->ref] ? EPOLLIN : 0;
    if (f->kind == WF_LISTEN) { for (int i = 0; i < W_MAXSOCK; i++) if (W.s[i].used && W.s[i].queued && W.s[i].port == W.lport[f->ref]) return EPOLLIN; return 0; }
    if (f->kind == WF_SOCK) { WSock* s = sk(f); uint32_t e = 0; if (s->in_len > s->in_pos || s->fin || s->rst) e |= EPOLLIN; if (s->fin) e |= EPOLLRDHUP; if (s->rst) e |= EPOLLHUP | EPOLLERR | EPOLLRDHUP | EPOLLOUT; if (s->srv_shut && s->fin) e |= EPOLLHUP; if (sock_room(s)) e |= EPOLLOUT; return e; }
    return 0;
}
static int ep_ready(int ep) { for (int i = 0; i < W.nreg; i++) if (W.r[i].used && W.r[i].epfd == ep && (poll_fd(W.r[i].fd) & (W.r[i].events | EPOLLERR | EPOLLHUP))) return 1; return 0; }
int w_epoll_wait(int ep, struct epoll_event* out, int max, int timeout) {
    WFd* e = FDp(ep); if (!e || e->kind != WF_EPOLL) { W.bad_fd++; E_(EBADF); }
    if (W.sigchld_pending && vx_thread_self() == 0) { W.sigchld_pending = 0; w_signal(SIGCHLD); }
    if (timeout != 0) { if (!W.stopping) w_block(WT_EPOLL, ep); else w_usleep(0); }
    int n = 0, idx[W_MAXREG];
    for (int i = 0; i < W.nreg; i++) if (W.r[i].used && W.r[i].epfd == ep && (poll_fd(W.r[i].fd) & (W.r[i].events | EPOLLERR | EPOLLHUP))) idx[n++] = i;
    if (W.ep_rotate && n > 1) { int k = vx_choose(n, "first event"); int t = idx[0]; idx[0] = idx[k]; idx[k] = t; }
    if (n > max) n = max;
    for (int i = 0; i < n; i++) { WReg* r = &W.r[idx[i]]; out[i].events = poll_fd(r->fd) & (r->events | EPOLLERR | EPOLLHUP); out[i].data.u64 = r->data; }
    if (n == 0) { W.timeout_fire = 0; }
    return n;
}
// ---- streams used by the index loader
struct wfile { int fd; };
static struct wfile w_files[4]; static int w_nfiles;
void* w_fdopen(int fd, const char*) { if (!FDp(fd)) return nullptr; struct wfile* f = &w_files[w_nfiles++ & 3]; f->fd = fd; return f; }
void* w_fopen(const char* p, const char* m) { int fd = w_open(p, m[0] == 'r' ? O_RDONLY : O_CREAT | O_TRUNC | O_RDWR, 0600); return fd < 0 ? nullptr : w_fdopen(fd, m); }
int w_fclose(void* f) { return w_close(((struct wfile*)f)->fd); }
ssize_t w_getdelim(char** lp, size_t* np, int delim, void* fv) {
    WFd* f = FDp(((struct wfile*)fv)->fd); if (!f) { W.bad_fd++; return -1; } WInode* n = &FS->ino[f->ref]; int64_t p = f->pos; if (p >= n->size) return -1;
    int64_t q = p; while (q < n->size) { uint8_t c; iread(n, q, &c, 1); q++; if (c == (uint8_t)delim) break; }
    size_t len = (size_t)(q - p); if (!*lp || *np < len + 1) { size_t c = len + 1 < 120 ? 120 : len + 1; *lp = (char*)vx_realloc(*lp, c); *np = c; }
    iread(n, p, *lp, (int)len); (*lp)[len] = 0; f->pos = q; return (ssize_t)len;
}
ssize_t w_getline(char** lp, size_t* np, void* f) { return w_getdelim(lp, np, '\n', f); }
char* w_fgets(char* b, int n, void* fv) { WFd* f = FDp(((struct wfile*)fv)->fd); if (!f) return nullptr; WInode* in = &FS->ino[f->ref]; int k = 0; while (k < n - 1 && f->pos < in->size) { char c; iread(in, f->pos, &c, 1); f->pos++; b[k++] = c; if (c == '\n') break; } if (!k) return nullptr; b[k] = 0; return b; }
int w_printf(const char*, ...) { return 0; }
int w_fprintf(void*, const char*, ...) { return 0; }
int w_puts(const char*) { return 0; }
int w_putchar(int c) { return c; }
int w_fputs(const char*, void*) { return 0; }
int w_fputc(int c, void*) { return c; }
size_t w_fwrite(const void*, size_t, size_t n, void*) { return n; }
int w_fflush(void*) { return 0; }
void w_perror(const char*) {}
char* w_strerror(int) { static char s[] = "error"; return s; }
char* w_strsignal(int) { static char s[] = "signal"; return s; }
char* vx_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)vx_malloc(n); memcpy(p, s, n); return p; }
char* vx_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)vx_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
int vx_asprintf(char** out, const char* f, ...) { char b[1024]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); if (n >= (int)sizeof b) { vx_unsupported("long asprintf"); vx_kill(); } *out = vx_strdup(b); return n; }
int w_fallocate4(int fd, int mode, off_t off, off_t len) { if (mode) { E_(EOPNOTSUPP); } int r = w_fallocate(fd, off, len); if (r) { w_errno = r; return -1; } return 0; }
void w_sync(void) {}
int w_dup2(int a, int b) { WFd* f = FDp(a); if (!f || b < 0 || b >= W_MAXFD) E_(EBADF); W.fd[b] = *f; return b; }
int w_ioctl(int, unsigned long, ...) { return 0; }
int w_clock_gettime(int, struct timespec* t) { t->tv_sec = FS->now_sec; t->tv_nsec = FS->now_usec * 1000; return 0; }
int w_sigprocmask(int, const void*, void*) { return 0; }
int w_kill(int, int) { vx_unsupported("kill()"); vx_kill(); }
int w_chdir(const char*) { return 0; }
int w_isatty(int) { return W.tty; }
int w_sched_yield(void) { return w_usleep(0); }
uint64_t w_pthread_self(void) { return vx_thread_self(); }
int w_mutex_trylock(wmutex* m) { w_point(); if (m->owner1) return EBUSY; m->owner1 = vx_thread_self() + 1; return 0; }
int w_feof(void* fv) { WFd* f = FDp(((struct wfile*)fv)->fd); return f ? f->pos >= FS->ino[f->ref].size : 1; }
}
static int th_ready(int t) {
    WThread* w = &W.t[t]; if (w->done) return 0;
    switch (w->wait) { case WT_RUN: return 1; case WT_EPOLL: return W.stopping || W.timeout_fire || ep_ready((int)w->arg); case WT_JOIN: return W.t[w->arg].done; case WT_MUTEX: return ((wmutex*)(intptr_t)w->arg)->owner1 == 0; default: return 0; }
}
void w_signal(int s) { if (w_sig[s] && w_sig[s] != SIG_IGN) w_sig[s](s); }
int w_handled(int s) { return w_sig[s] && w_sig[s] != SIG_IGN; }
void w_tick(void) { w_signal(SIGALRM); }
void w_advance(int64_t sec) { FS->now_sec += sec; w_tick(); }
// ------------------------------------------------------------------ clients
int cl_connect(int port) {
    for (int i = 0; i < W_MAXSOCK; i++) if (!W.s[i].used) { WSock* s = &W.s[i]; memset(s, 0, sizeof *s); s->used = 1; s->fd = -1; s->port = port; s->queued = 1; s->in_cap = W.maxin; s->out_cap = W.maxout; s->in = (uint8_t*)vx_shared_alloc(s->in_cap); s->out = (uint8_t*)vx_shared_alloc(s->out_cap); s->wmode = W.wr_mode; return i; }
    vx_unsupported("too many clients"); vx_kill();
}
void cl_send(int c, const void* b, int n) { WSock* s = &W.s[c]; if (s->srv_closed) return; if (s->in_len + n > s->in_cap && s->in_pos) { memmove(s->in, s->in + s->in_pos, s->in_len - s->in_pos); s->in_len -= s->in_pos; s->in_pos = 0; } if (s->in_len + n > s->in_cap) { vx_unsupported("client input capture full"); vx_kill(); } memcpy(s->in + s->in_len, b, n); s->in_len += n; }
void cl_puts(int c, const char* t) { cl_send(c, t, (int)strlen(t)); }
void cl_fin(int c) { W.s[c].fin = 1; }
void cl_close(int c) { W.s[c].fin = 1; W.s[c].gone = 1; }
void cl_reset(int c) { W.s[c].fin = 1; W.s[c].gone = 1; W.s[c].rst = 1; }
int cl_pending(int c) { return W.s[c].in_len - W.s[c].in_pos; }
int cl_open(int c) { return !W.s[c].srv_closed; }
