/* Harnesses shared by the filters that own one descriptor per knote.  The unit
 * defines EVF (its filter), arm(kn) (kn enabled and armed in the ghost kernel),
 * park(kn) (kn disabled) and OBS(kn) (the descriptor whose counter is observed). */
static void set_flags(struct knote *kn, _Bool disabled)
{
    if (disabled) kn->kev.flags |= EV_DISABLE; else kn->kev.flags &= ~EV_DISABLE;
}
static struct knote *start(void)
{
    env_kernel();
    env_kq(&EVF);
    return env_knote(&EVF);
}
static struct knote *any(void)
{
    struct knote *kn = start();
    _Bool dis = ND_BOOL(disabled);
    set_flags(kn, dis);
    if (dis) park(kn); else arm(kn);
    return kn;
}
static struct knote *armed(void) { struct knote *kn = start(); set_flags(kn, 0); arm(kn); return kn; }
static struct knote *parked(void) { struct knote *kn = start(); set_flags(kn, 1); park(kn); return kn; }
void main_create(void)
{
    struct knote *kn = start();
    set_flags(kn, 0);
    fresh(kn);
    env_snap(kn, -1);
    vp_create(FILT, kn);
    REACH("create");
}
void main_enable(void)
{
    struct knote *kn = parked();
    env_snap(kn, OBS(kn));
    vp_enable(FILT, kn);
    REACH("enable");
}
void main_modify(void)
{
    struct knote *kn = any();
    struct kevent kev = { .ident = kn->kev.ident, .filter = kn->kev.filter, .flags = ND_USHORT(new_flags),
                          .fflags = ND_UINT(new_fflags), .data = ND_LONG(new_data), .udata = (void *)ND_ULONG(new_udata) };
    ASSUME(!(kev.flags & (EV_EOF | EV_ERROR | EV_DISABLE | EV_DELETE | EV_ENABLE)));
    ASSUME(!((kev.flags & EV_ONESHOT) && (kev.flags & EV_DISPATCH)));
    env_snap(kn, OBS(kn));
    vp_modify(FILT, kn, &kev);
    REACH("modify");
}
void main_disable(void)
{
    struct knote *kn = armed();
    env_snap(kn, OBS(kn));
    vp_disable(FILT, kn);
    REACH("disable");
}
void main_delete(void)
{
    struct knote *kn = any();
    env_snap(kn, OBS(kn));
    vp_delete(FILT, kn);
    REACH("delete");
}
void main_copyout(void)
{
    struct kevent el;
    struct epoll_event ev = { .events = ND_UINT(ev_events) };
    struct knote *kn = armed();
    env_snap(kn, OBS(kn));
    vp_copyout(&el, ND_INT(el_room), FILT, kn, &ev);
    REACH("copyout");
}

/* one registration through a history of operations: each one finds what the one
 * before it left, including the fields no contract mentions */
#ifndef SEQ_N
#define SEQ_N 3
#endif
void main_seq(void)
{
    struct knote *kn = start();
    struct kevent kev = { .ident = kn->kev.ident, .filter = kn->kev.filter, .flags = ND_USHORT(new_flags),
                          .fflags = ND_UINT(new_fflags), .data = ND_LONG(new_data), .udata = (void *)ND_ULONG(new_udata) };
    ASSUME(!(kev.flags & (EV_EOF | EV_ERROR | EV_DISABLE | EV_DELETE | EV_ENABLE)));
    ASSUME(!((kev.flags & EV_ONESHOT) && (kev.flags & EV_DISPATCH)));
    set_flags(kn, 0);
    fresh(kn);
    SEQ_ASSUME(kn);
    int owned = s_owned();
    if (FILT->kn_create(FILT, kn) != 0) return;
    CHECK(INV(kn), "[C04] a new registration is armed");
    for (int i = 0; i < SEQ_N; i++) {
        unsigned op = ND_UINT(op) % 3;
        if (op == 0) break;
        if (op == 1) (void)FILT->kn_modify(FILT, kn, &kev);
        else if (KNOTE_ENABLED(kn)) {
            CHECK(FILT->kn_disable(FILT, kn) == 0, "[C04] disabling succeeds, whatever was done before");
            set_flags(kn, 1);
        } else if (FILT->kn_enable(FILT, kn) == 0) set_flags(kn, 0);
        CHECK(INV(kn), "[C04] a registration is armed exactly if it is enabled, whatever was done before");
    }
    CHECK(FILT->kn_delete(FILT, kn) == 0, "[C04 C16] deleting succeeds, whatever was done before");
    CHECK(REFS(kn) == 0, "[C16 C04] a deleted registration leaves nothing in the kernel, whatever was done before");
    CHECK(s_owned() == owned && s_clean(), "[C16] its descriptors are released, whatever was done before");
    REACH("seq");
}
