#include "hx.h"
static void script(void) {
    int c = cl_connect(PORT_CACHE); settle();
    char v[8]; vx_sym(v, 5, "value");
    Resp r = put(c, "/t/k", v, 5); vx_check(is200(r), "put answers 200"); vx_note_int("status", r.status);
    r = get(c, "/t/k"); vx_check(got(r, v, 5), "get returns the value");
    r = get(c, "/t/z"); vx_check(is404(r), "404");
    cl_close(c); settle(); vx_check(!cl_open(c), "closed"); vx_reach("end"); vx_note_int("live", vx_live());
}
static void proc(void*) { w_init_proc(); server_with(script, DEFCFG); vx_check(W.bad_close == 0, "bad close"); vx_reach("stopped"); }
extern "C" void vx_main(void) { w_init_fs(); vx_proc_run(proc, nullptr); vx_reach("done"); }
