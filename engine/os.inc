// Included by sim.cpp (inside extern "C"): what other operating systems offer to wait for a change of memory, and the
// Windows locks.  Sources: the systems' manual pages and, where these are silent, their kernel sources as cited in
// Boost.Atomic's headers.
static bool os_valid(uint64_t a) { return phys(a) != ~0ull || lib_address((void*)a) || (a >= STACK_BASE && a < STACK_BASE + MAXF * STACK_SIZE) || (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE); }
// blocks on key until woken, the deadline (ns of the clock) or a spurious end; result 0, -ETIMEDOUT or spur
static int os_block(uint64_t key, uint32_t tag, bool timed, bool real, int64_t d, int spur, const char* what, uint64_t a) {
    Fiber* f = C.cur; if (!C.active) { if (timed) return -ETIMEDOUT; fail("deadlock", "an operation made while no other thread runs blocks"); }
    f->bkind = B_FUTEX; f->key = key; f->bitset = tag; f->has_deadline = timed && d < INT64_MAX; f->deadline_real = real; f->deadline = d; f->wake_res = 0; f->timed_out = false;
    maybe_spur(f, spur); probe(26);
    note("%s %llx%s", what, (unsigned long long)a, timed ? " (timed)" : ""); block(f); note("%s %llx ends with %d", what, (unsigned long long)a, f->wake_res);
    return f->wake_res;
}
static int64_t os_rel(uint64_t ns) { uint64_t n = mono_now(); return ns > (uint64_t)INT64_MAX - n || ns > 4500000000000000000ull ? INT64_MAX : (int64_t)(ns + n); }
static bool os_intr() { return C.active && !fair && choose(C.cur, K_EINTR, 2); }
static void os_enter() { if (C.active) { model_point(); if (C.cur->libw) C.cur->libt++; } }
static int os_err(int e) { errno = e; return -1; }

// ---- FreeBSD
struct fbsd_umtx_time { struct timespec t; uint32_t flags, clock; };
int sim_umtx_op(void* obj, int op, unsigned long val, void* uaddr, void* uaddr2) {
    os_enter(); uint64_t a = (uint64_t)obj; 
    switch (op) {
    case 2: case 11: case 15: {         // UMTX_OP_WAIT, WAIT_UINT, WAIT_UINT_PRIVATE
        bool timed = uaddr2 != nullptr, real = false; int64_t d = 0;
        if (timed) {
            const struct timespec* ts = (const struct timespec*)uaddr2; bool abs = false, st = false; uint32_t clk = CLOCK_REALTIME;
            if ((uint64_t)uaddr > sizeof(struct timespec)) { const fbsd_umtx_time* u = (const fbsd_umtx_time*)uaddr2; abs = u->flags & 1; clk = u->clock; st = true; }
            if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return os_err(EINVAL);
            int64_t dummy; if (!get_clock((clockid_t)clk, dummy)) return os_err(EINVAL);
            if (abs) { real = clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE || clk == CLOCK_TAI; d = ts->tv_sec > (real ? 8000000000ll : 4600000000ll) ? INT64_MAX : ts->tv_sec * 1000000000ll + ts->tv_nsec; }
            else if (st && (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE || clk == CLOCK_TAI)) { real = true; d = ts->tv_sec > 4500000000ll ? INT64_MAX : real_now() + ts->tv_sec * 1000000000ll + ts->tv_nsec; }      // since 10.0
            else d = ts->tv_sec > 4500000000ll ? INT64_MAX : os_rel(ts->tv_sec * 1000000000ull + ts->tv_nsec);
        }
        if (!os_valid(a)) return os_err(EFAULT);
        if (a & (op == 2 ? 7 : 3)) return os_err(EINVAL);
        unsigned long cur = op == 2 ? *(volatile uint64_t*)a : *(volatile uint32_t*)a;
        if (cur != val) return 0;
        if (os_intr()) return os_err(EINTR);
        int r = os_block(fkey(a, op == 15), op == 15 ? 2 : 1, timed, real, d, -EINTR, "_umtx_op wait", a);
        return r < 0 ? os_err(-r) : 0; }
    case 3: case 16: { if (!C.active) return 0; if ((long)val < 0) return os_err(EINVAL); int n = fwake(fkey(a, op == 16), val > 0x7fffffff ? 0x7fffffff : (uint32_t)val, op == 16 ? 2 : 1); note("_umtx_op wake %llx (%d woken)", (unsigned long long)a, n); return 0; }
    }
    return os_err(EINVAL);
}
// ---- DragonFly BSD
int sim_umtx_sleep(volatile const int* p, int value, int us) {
    os_enter(); uint64_t a = (uint64_t)p; if (us < 0 || (a & 3)) return os_err(EINVAL); if (!os_valid(a)) return os_err(EFAULT);
    if (*p != value) return os_err(EBUSY);
    if (os_intr()) return os_err(EINTR);
    int r = os_block(fkey(a, false), 1, us != 0, false, os_rel(us * 1000ull), -EINTR, "umtx_sleep", a);
    return r < 0 ? os_err(r == -ETIMEDOUT ? EWOULDBLOCK : -r) : 0;
}
int sim_umtx_wakeup(volatile const int* p, int count) { os_enter(); if (!C.active) return 0; int n = fwake(fkey((uint64_t)p, false), count <= 0 ? 0x7fffffff : count, 1); note("umtx_wakeup %llx (%d woken)", (unsigned long long)p, n); return 0; }
// ---- Darwin.  Operations: 1 compare-and-wait, 3 the same between processes, 5 and 6 the same for 64 bits
static bool ul_op(uint32_t op, bool& shared, bool& w64) { op &= 0xff; shared = op == 3 || op == 6; w64 = op == 5 || op == 6; return op == 1 || op == 3 || op == 5 || op == 6; }
static int ul_ret(uint32_t op, int r) { if (r < 0 && !(op & 0x01000000)) { errno = -r; return -1; } return r; }
static int ul_wait(uint32_t op, void* p, uint64_t value, uint64_t ns) {
    os_enter(); uint64_t a = (uint64_t)p; bool sh, w64; if (!ul_op(op, sh, w64) || (op & 0xfeff0000u & ~0x01000000u)) return ul_ret(op, -EINVAL);
    if (a & (w64 ? 7 : 3)) return ul_ret(op, -EINVAL); if (!os_valid(a)) return ul_ret(op, -EFAULT);
    uint64_t cur = w64 ? *(volatile uint64_t*)a : *(volatile uint32_t*)a; if (!w64) value = (uint32_t)value;
    if (cur != value) return 0;
    if (os_intr()) return ul_ret(op, -EINTR);
    int r = os_block(fkey(a, !sh), 1u << (op & 31), ns != 0, false, os_rel(ns), -EINTR, "__ulock_wait", a);
    return ul_ret(op, r);
}
int sim_ulock_wait(uint32_t op, void* p, uint64_t value, uint32_t us) { return ul_wait(op, p, value, us * 1000ull); }
int sim_ulock_wait2(uint32_t op, void* p, uint64_t value, uint64_t ns, uint64_t) { return ul_wait(op, p, value, ns); }
int sim_ulock_wake(uint32_t op, void* p, uint64_t) {
    os_enter(); if (!C.active) return ul_ret(op, -ENOENT); bool sh, w64; if (!ul_op(op, sh, w64)) return ul_ret(op, -EINVAL);
    uint64_t key = fkey((uint64_t)p, !sh);
    for (int i = 0; i < NF; ++i) if (F[i].state == F_BLOCKED && F[i].bkind == B_FUTEX && F[i].key == key && !(F[i].bitset & (1u << (op & 31)))) return ul_ret(op, -EDOM);
    if (os_intr()) return ul_ret(op, -EINTR);
    int n = fwake(key, (op & 0x100) ? 0x7fffffff : 1, 1u << (op & 31)); note("__ulock_wake %llx (%d woken)", (unsigned long long)p, n);
    return n ? 0 : ul_ret(op, -ENOENT);
}
// ---- OpenBSD
int sim_obsd_futex(volatile uint32_t* p, int op, int val, const struct timespec* ts, volatile uint32_t* p2) {
    if (op & ~(128 | 3)) return os_err(ENOSYS);
    if (!C.active) { if ((op & 127) != FUTEX_WAIT) return 0; if (*p != (uint32_t)val) return os_err(EAGAIN); if (ts) return os_err(ETIMEDOUT); fail("deadlock", "an operation made while no other thread runs blocks"); }
    long r = futex((uint64_t)p, op, (uint32_t)val, (uint64_t)ts, (uint64_t)p2, 0);
    return r < 0 ? os_err((int)-r) : (int)r;
}
int sim_obsd_futex_old(volatile uint32_t* p, int op, int val, const struct timespec* ts, volatile uint32_t* p2) {     // up to 7.0: the error is returned
    int e = errno, r = sim_obsd_futex(p, op, val, ts, p2); if (r < 0) { r = errno; errno = e; } return r;
}
// ---- Windows
static uint32_t win_err[MAXF + 1];
static uint32_t& lasterr() { return win_err[C.active ? C.cur->id : MAXF]; }
uint32_t sim_GetLastError() { return lasterr(); }
int32_t sim_SwitchToThread() { if (C.active) do_sleep(1000, nullptr); return 0; }
void sim_Sleep(uint32_t ms) { if (C.active) do_sleep(ms ? ms * 1000000ll : 1000, nullptr); }
int32_t sim_WaitOnAddress(volatile void* p, void* cmp, size_t size, uint32_t ms) {
    os_enter(); uint64_t a = (uint64_t)p; if (size != 1 && size != 2 && size != 4 && size != 8) { lasterr() = 87; return 0; }
    uint64_t v = 0, w = 0; memcpy(&w, cmp, size);
    switch (size) { case 1: v = *(volatile uint8_t*)p; break; case 2: v = *(volatile uint16_t*)p; break; case 4: v = *(volatile uint32_t*)p; break; default: v = *(volatile uint64_t*)p; }
    if (v != w) return 1;
    if (ms == 0) { lasterr() = 1460; return 0; }
    int r = os_block(fkey(a, true), 1, ms != 0xffffffffu, false, os_rel(ms * 1000000ull), 0, "WaitOnAddress", a);
    if (r == -ETIMEDOUT) { lasterr() = 1460; return 0; }
    return 1;
}
void sim_WakeByAddressSingle(void* p) { os_enter(); if (C.active) { int n = fwake(fkey((uint64_t)p, true), 1, 1); note("WakeByAddressSingle %llx (%d woken)", (unsigned long long)p, n); } }
void sim_WakeByAddressAll(void* p) { os_enter(); if (C.active) { int n = fwake(fkey((uint64_t)p, true), 0x7fffffff, 1); note("WakeByAddressAll %llx (%d woken)", (unsigned long long)p, n); } }
void sim_AcquireSRWLockExclusive(void* l) { if (C.active) simlock_((pthread_mutex_t*)l, false); }
uint8_t sim_TryAcquireSRWLockExclusive(void* l) { return !C.active || simlock_((pthread_mutex_t*)l, true) == 0; }
void sim_ReleaseSRWLockExclusive(void* l) { if (C.active) { munlock_raw((pthread_mutex_t*)l); model_point(); } }
void sim_InitializeConditionVariable(void* c) { memset(c, 0, 8); }
int32_t sim_SleepConditionVariableSRW(void* c, void* l, uint32_t ms, uint32_t flags) {
    os_enter(); Fiber* f = C.cur; if (flags) { lasterr() = 87; return 0; } touch((uint64_t)c, 8, A_READ);
    if (((SimMutex*)l)->owner != f->id + 1) fail("lock-misuse", "condition wait without owning the lock");
    munlock_raw((pthread_mutex_t*)l); int64_t d = os_rel(ms * 1000000ull);
    f->bkind = B_COND; f->key = (uint64_t)c; f->has_deadline = ms != 0xffffffffu; f->deadline_real = false; f->deadline = d; f->wake_res = 0; f->timed_out = false;
    maybe_spur(f, 0); probe(27); block(f);
    int r = f->wake_res; simlock_((pthread_mutex_t*)l, false);
    if (r == -ETIMEDOUT) { lasterr() = 1460; return 0; }
    return 1;
}
static void win_signal(void* c, bool all) {
    os_enter(); if (!C.active) return; touch((uint64_t)c, 8, A_READ);
    for (;;) { Fiber* cd[MAXF]; int n = 0; for (int i = 0; i < NF; ++i) if (F[i].state == F_BLOCKED && F[i].bkind == B_COND && F[i].key == (uint64_t)c && F[i].proc == C.cur->proc) cd[n++] = &F[i];
        if (!n) break;
        std::sort(cd, cd + n, [](Fiber* a, Fiber* b) { return a->bseq < b->bseq; }); uint32_t v = fair || n == 1 ? 0 : choose(C.cur, K_WAKEORD, n); cd[v]->state = F_RUN; cd[v]->wake_res = 0; if (!all) break;
    }
}
void sim_WakeConditionVariable(void* c) { win_signal(c, false); }
void sim_WakeAllConditionVariable(void* c) { win_signal(c, true); }
