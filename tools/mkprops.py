#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the table below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, level='proof', note='', state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe) or ['return value and event list of kevent()'], hook_needed=None),
                  _level=level, _note=note))
KE, KN, FI, KQ, PL = 'src/common/kevent.c', 'src/common/knote.c', 'src/common/filter.c', 'src/common/kqueue.c', 'src/linux/platform.c'
L = lambda x: 'src/linux/%s.c' % x

p('C01', 'Every change is applied in order and acknowledged as the protocol says',
  'A call that submits changes applies them one at a time, in list order, and only once each. For every change that fails, and for every change that asks for a receipt, exactly one entry is returned, in the same order, repeating that change and carrying EV_ERROR with the error number (0 on success) in data; a change that succeeds without asking for a receipt returns no entry. If there is no room for a required entry the call returns -1 and processes no further change.',
  ['inputs', 'histories', 'fault_sequences'], 'all change lists (any flags, filters, idents), all list sizes, all outcomes of the filter operations',
  'the tests submit one or two well-formed changes with ample room; the mix of failures, receipts and lack of room is an unbounded input space',
  [KE, FI], [('change loop and receipts', KE), ('filter lookup', FI)])
p('C02', 'The returned count, the space limit and the wait are exactly the caller\'s',
  'The call never writes more entries than the space offered and returns exactly the number of entries it wrote, the entries for changes coming first and delivered events after them. It waits, with the timeout the caller gave and for no more events than there is room left, only if room is left after the changes; with no room (nevents of 0 or no event list) it does not wait and still returns the number of entries. An unknown descriptor yields -1 with ENOENT, and a wait that fails yields -1.',
  ['inputs', 'histories', 'fault_sequences'], 'all sizes of both lists, all timeouts, all outcomes of waiting',
  'the tests never mix receipts with delivered events or with a full list', [KE, PL], [('entry point', KE)])
p('C03', 'A registration is one (filter, ident) pair, created, changed, removed as asked',
  'Adding a pair that is not registered creates exactly one registration carrying the caller\'s data, and adding it again changes that registration in place and never creates a second. Every other operation on a pair that is not registered fails with ENOENT, an unknown or unsupported filter is refused with EINVAL or ENOSYS, asking for one-shot and dispatch at once is refused with EINVAL, and a creation that fails leaves no registration. Deleting removes exactly that registration, which is gone for every later operation.',
  ['inputs', 'histories', 'fault_sequences'], 'all changes against all prior states of the pair, including failing filter operations',
  'tests add and delete a handful of idents; not every flag combination against every prior state', [KE, KN, FI],
  [('lookup, insertion and deletion of knotes', KN), ('single change', KE)])
p('C04', 'Disabled registrations cannot fire; enabled ones are watched by the kernel',
  'For every filter, while a registration is disabled the kernel holds no interest on its behalf, and while it is enabled the kernel holds exactly the interest it needs; adding with EV_DISABLE leaves it disabled. Enabling and disabling change nothing else about the registration and are no-ops when it is already in that state. If enabling or disabling fails the registration stays as it was.',
  ['inputs', 'histories', 'fault_sequences'], 'every filter, every registration state, every failing system call',
  'tests disable and enable once per filter and look for absence of an event within a short wait', [KN, KE] + [L(x) for x in ('read', 'write', 'timer', 'user', 'vnode', 'proc', 'signal')],
  [('knote_enable/knote_disable', KN), ('kn_enable/kn_disable of every filter', 'src/linux/*.c')])
p('C05', 'EV_ONESHOT and EV_DISPATCH act exactly once, on delivery only',
  'When an event is delivered for a one-shot registration that registration is deleted, and for a dispatch registration it is disabled, exactly once and only when an event is delivered. A registration with neither flag stays registered, enabled and unchanged after each delivery. If the deletion or disabling fails the delivery reports the failure.',
  ['inputs', 'histories'], 'every filter, every registration, every event the kernel can report',
  'tests take one event per filter; they cannot settle spurious or discarded events', ['src/common/private.h'] + [L(x) for x in ('read', 'write', 'timer', 'user', 'vnode', 'proc', 'signal')],
  [('common post-delivery actions', 'src/common/private.h'), ('kf_copyout of every filter', 'src/linux/*.c')])
p('C06', 'A delivered event carries exactly the identity the caller registered',
  'Every delivered event has the ident, filter and user data of the registration it belongs to, and as flags those of the registration plus only EV_EOF or EV_ERROR where the event calls for it. User data is the value last given for that registration. No operation other than a change from the caller alters any of these.',
  ['inputs', 'histories'], 'every filter, every registration and event', 'tests use a few idents and rarely set user data', [KE] + [L(x) for x in ('read', 'write', 'timer', 'user', 'vnode', 'proc', 'signal')],
  [('kf_copyout of every filter', 'src/linux/*.c'), ('udata update', KE)])
p('C07', 'Timers fire at exactly the requested time and report every expiration',
  'A timer is armed for exactly the interval or absolute time requested, in the unit requested, repeating unless one-shot, and re-adding it re-arms it with the new values. An event reports the number of expirations since the last one, at least 1, and consumes them. A value that no timer can represent is refused without leaving anything behind.',
  ['inputs', 'histories', 'fault_sequences'], 'all 64-bit timer values, all units and flags', 'tests use a few small round values', [L('timer')], [('conversion and arming', L('timer'))])
p('C08', 'User events: triggers are never lost and flags combine as documented',
  'A trigger on an enabled user event makes it pending; without a trigger nothing becomes pending. The caller\'s flag bits are combined with AND, OR, copy or left alone exactly as the operation bits say, and are delivered without the control bits. With EV_CLEAR, EV_ONESHOT or EV_DISPATCH an event fires once however often it was triggered; otherwise it stays pending.',
  ['inputs', 'histories'], 'all flag values and operations, any number of triggers', 'tests try a handful of flag values', [L('user')], [('user filter', L('user'))])
p('C09', 'File events report what happened to the file, and only what was asked for',
  'The file behind the descriptor is watched for everything the registration asks for. An event is delivered exactly when something asked for happened, with flags naming exactly what happened among what was asked for (a growth is reported along with a write that was asked for), never with empty flags; link count and size changes are measured from the last one seen. Other activity on the file delivers nothing and leaves the registration armed.',
  ['inputs', 'histories'], 'all note combinations, all kernel change records, all prior link counts and sizes', 'tests make one change of each kind', [L('vnode')], [('vnode filter', L('vnode'))])
p('C10', 'A process exit is reported once, with its wait status, without reaping it',
  'When a watched process has terminated, whether by itself or by a signal, one event is delivered whose data is the status wait would report, with EV_EOF, and the registration is then gone. The process is never reaped by the library. Nothing is delivered before it has terminated or if exit was not asked for.',
  ['inputs', 'histories', 'fault_sequences'], 'all exit codes and signals, all outcomes of querying the process', 'tests use one or two exit codes', [L('proc')], [('process filter', L('proc'))])
p('C11', 'Signal registrations catch exactly the requested signal',
  'An enabled signal registration catches exactly the signal it names and suppresses its default action, and no other signal\'s mask is ever changed. An event reports at least one occurrence and consumes it; disabling or deleting the registration stops the catching and releases its descriptor.',
  ['inputs', 'histories', 'fault_sequences'], 'all signals, all prior signal masks', 'tests use SIGUSR1/SIGUSR2', [L('signal')], [('signal filter', L('signal'))])
p('C12', 'Readiness events carry the right amount of data, EOF and error state',
  'A readable descriptor is reported with the number of bytes available (a listening socket or other passive descriptor with 1, a regular file with the distance from the current offset to its end), a writable one with the space state of its queue, and a closed peer with EV_EOF and the pending socket error in fflags. A regular file that is at its end is not reported. The descriptor itself is never read, written or moved.',
  ['inputs', 'histories', 'fault_sequences'], 'all descriptor types, event masks, queue sizes and offsets', 'tests use small transfers on sockets and one file', [L('read'), L('write')], [('read filter', L('read')), ('write filter', L('write'))])
p('C13', 'Read and write interest in one descriptor never disturb each other',
  'With both a read and a write registration on one descriptor, creating, enabling, disabling or deleting one of them leaves the other registered, watched and unchanged, whatever fails and even if the descriptor was closed or its number reused in between. The kernel interest in the descriptor is always exactly the union of the enabled ones, edge-triggered only if every one of them is. When the last is removed nothing of the descriptor is left behind.',
  ['inputs', 'histories', 'fault_sequences'], 'all states of the two registrations, all orders of operations, all failing system calls', 'tests exercise a few orders on live sockets', [PL, L('read'), L('write')],
  [('shared descriptor state', PL)], state=[('fd_state', 'the two knotes sharing one epoll registration', 'src/linux/platform.h')])
p('C14', 'Kernel events become events of the right registrations, within the space given',
  'Each kernel event is turned into the event of the registration it belongs to: for a descriptor with read and write registrations the enabled ones that the event concerns, read first, each at most once, including hang-up and error. No more events are produced than there is space, the count returned is exactly the number produced, and events a filter discards are not counted. An event there is no space for is not lost: a later call delivers it, even if the kernel reports it only once. A registration removed by an earlier delivery in the same batch is not touched again.',
  ['inputs', 'histories'], 'all batches of kernel events and available space', 'tests have one or two simultaneous events', [PL], [('event demultiplexing', PL)])
p('C15', 'A wait lasts exactly as long as the caller asked',
  'Without a timeout the wait is unbounded, with a zero timeout it does not block, and otherwise it is bounded by exactly the requested time, to the nanosecond where the request is not a whole number of milliseconds and without overflow for the longest ones. An interrupted or failed wait is reported with its error number. No more events than requested are fetched.',
  ['inputs', 'fault_sequences'], 'all timeouts (64-bit seconds, all nanoseconds), all outcomes of the wait', 'tests use a few short timeouts', [PL], [('timeout conversion', PL)])
p('C16', 'No operation leaks or misuses a descriptor or memory, whatever fails',
  'Every descriptor and allocation made for a registration or a kqueue is released exactly once when it is deleted or freed, and none is left over when creating it fails at any point. The library never closes a descriptor of the application, never closes one twice, and never touches memory of a registration it has freed. No operation blocks on an empty descriptor while holding a lock.',
  ['inputs', 'histories', 'fault_sequences'], 'all operations of all filters with any system call or allocation failing', 'tests do not inject failures', ['src/linux/*.c', KN, KQ], [('creation error paths, deletion', 'src/linux/*.c')])
p('C17', 'A kqueue is usable exactly from its creation to its release',
  'A successful creation returns a descriptor under which that kqueue and no other is found, with every supported filter ready; a failed creation returns -1 and leaves nothing behind. A kqueue still recorded under a reused descriptor number is released first. After release it is found no more, all its registrations are gone and its descriptors are closed.',
  ['inputs', 'histories', 'fault_sequences'], 'all creations and releases, any system call or allocation failing, descriptor numbers reused', 'tests create a few kqueues and never fail', [KQ, 'src/common/map.c', FI, PL],
  [('creation and release', KQ), ('descriptor map', 'src/common/map.c'), ('platform part', PL)])
p('C18', 'Every call releases its locks and restores the cancellation state',
  'Every call, on every path, returns with the locks it took released, each exactly once, and with the calling thread\'s cancellation state as it found it. The lock of the kqueue is held whenever its state is used, and the global lock is not held while waiting. A thread cancelled inside a call leaves no lock held, and a cancellation requested before the call is acted on by its end.',
  ['inputs', 'schedules', 'fault_sequences'], 'all paths through the entry points, cancellation at any cancellation point', 'tests do not cancel threads inside calls', [KE, KQ, PL], [('locking', KE), ('creation', KQ)])
p('C19', 'After fork the child is cut off from the parent\'s kqueues and can make its own',
  'With fork clean-up active the child closes its copies of every kqueue descriptor, exactly once and no other descriptor, and can create new kqueues with a monitoring thread of its own; parent and child both come out of the fork with the global lock released. With clean-up inactive nothing is closed and the lock is not taken. Either way a child that exits leaves what belongs to its parent alone. The setting in force is the one at the start of the fork.',
  ['histories', 'inputs'], 'any set of kqueues, either setting, changed at any time', 'one test forks once', [KQ, PL], [('fork handlers', KQ), ('platform fork handler', PL)])
p('C20', 'A closed kqueue is released exactly once, even if its number is reused',
  'When the descriptor of a kqueue is closed its resources are released exactly once. If the number is given to a new kqueue before the closure has been noticed, the late notification does not release the new one. A failed wait for notifications releases nothing.',
  ['schedules', 'histories'], 'any sequence of closures, reuses and notifications', 'timing of notifications cannot be controlled by tests', [PL], [('monitoring thread', PL)],
  state=[('use counts', 'kqueues created under a descriptor number whose closure is unnoticed', PL)])
p('C21', 'Library queries and settings answer with the right value and take effect',
  'Asking for the library version returns the version number or string; setting thread safety or fork clean-up takes effect at once and reports the previous setting when a receipt is asked for. Unknown requests are refused. No query alters any other setting.',
  ['inputs'], 'all requests and values', 'tests try a few values', ['src/common/libkqueue.c'], [('query filter', 'src/common/libkqueue.c')])
p('C22', 'Every descriptor is classified by what it really is',
  'A descriptor registered for reading or writing is classified as regular file, pipe, block or character device, or as a socket of its actual type, and as passive exactly when it is a listening or filtered socket or has no type at all. A descriptor that is closed or of no supported type is refused. Classification changes nothing about the descriptor.',
  ['inputs', 'fault_sequences'], 'all file types, socket types and socket states, any query failing', 'tests use sockets, pipes and one file', [PL], [('descriptor classification', PL)])

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps({k: v for k, v in x.items() if not k.startswith('_')}) + '\n')
    out = subprocess.run([sys.executable, os.path.join(V, 'run.py'), '--list'], capture_output=True, text=True).stdout
    have = {t for l in out.split('\n') for t in l.split()[1:]}
    checks, na = [], []
    for x in P:
        if x['id'] in have:
            checks.append(dict(property=x['id'], quick_cmd='python3 run.py ' + x['id'], thorough_cmd='VERIF_TIER=thorough python3 run.py ' + x['id'],
                               technique='contract-based deductive verification (CBMC code contracts, goto-instrument --dfcc) of the functions in /repo', level=x['_level'],
                               level_note=x['_note'] or 'Contracts on the real functions, discharged for all inputs allowed by the preconditions; assumes the ghost kernel of vp/kernel.c as contracts of system calls, sequential execution under the kqueue lock, and the shim vp/vp.h. Jobs listed as bounded in the evidence are bounded and not counted as proved.'))
        else: na.append(dict(property=x['id'], reason=NA.get(x['id'], 'contracts not written yet')))
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='see DESIGN.md; known_findings.txt lists repaired defects'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
NA = {}
main()
