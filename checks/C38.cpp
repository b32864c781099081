/* C38: I2C bus. Every history of submissions, hardware outcomes, polls, purges and departures, against a list. */
#include "../mc/mc.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include "BusQueue/I2CAdapter.h"
#include <algorithm>
typedef std::string S;

static const unsigned POOL = 1, MAXQ = 2;
static bool dispatching, advancing, online;        // How the platform is configured.

enum Where { FREE, QUEUED, CURRENT };
enum Hw { NOT_YET, IN_IO, DONE };
struct Kind { const char* name; bool heap; bool flag; uint8_t dev; int16_t sub; BusOpcode oc; };
static const Kind KINDS[] = {
  {"A (its own buffer)",               false, false, 0x11, -1,   BusOpcode::TX_CMD},
  {"device D",                         false, false, 0x21, 0x35, BusOpcode::RX},
  {"nobody (a buffer to be freed)",    true,  true,  0x7F, 0x00, BusOpcode::TX},
};
static const unsigned NK = 3;
struct Job {
  I2CBusOp* op = nullptr; unsigned kind = 0, how = 0; bool owned = false, orphan = false; Where where = FREE; Hw hw = NOT_YET;
  uint8_t* buf = nullptr; uint16_t len = 0; XferFault fault = XferFault::NONE;
};
static std::vector<Job*> jobs, queue_; static Job* current; static unsigned recycles, resubmits; static I2CAdapter* bus; static bool purging, draining;
static unsigned called, begun; static bool in_poll, in_callback, may_begin;
static S last_use; static I2CBusOp* prealloc_op;
static uint8_t static_buf[4]; static I2CBusOp* first_begun;
struct Dev; static Dev* dev;
static Job own; static I2CBusOp* own_op;
static int8_t told(BusOp* o, unsigned who);

struct Owner : BusOpCallback {
  int8_t io_op_callahead(BusOp*) { return 0; }
  int8_t io_op_callback(BusOp* o) { return told(o, 0); }
  int8_t queue_io_job(BusOp* o) { return bus->queue_io_job(o); }
};
static Owner owner;
struct Dev : I2CDevice {
  Dev() : I2CDevice(0x21) {}
  int8_t io_op_callahead(BusOp*) { return 0; }
  int8_t io_op_callback(BusOp* o) { return told(o, 1); }
  bool go(unsigned how) { switch (how) { case 0: return readX(0x35, 4, static_buf); case 1: return writeX(0x00, 3, static_buf + 1); default: return ping_device(); } }
};
static BusOpcode opcode_of(Job* j) { return j->kind != 1 ? KINDS[j->kind].oc : j->how == 0 ? BusOpcode::RX : j->how == 1 ? BusOpcode::TX : BusOpcode::TX_CMD; }
static int16_t sub_of(Job* j) { return j->kind != 1 ? KINDS[j->kind].sub : j->how == 0 ? 0x35 : j->how == 1 ? 0 : -1; }

static Job* job_of(BusOp* o) {
  for (Job* j : jobs) if (j->op == (I2CBusOp*) o && j->where != FREE) return j;
  if (dev && o->callback == dev) for (Job* j : queue_) if (!j->op) { j->op = (I2CBusOp*) o; return j; }   // The device's jobs only come into our hands here.
  return nullptr;
}
static const char* where_s(Where w) { return w == FREE ? "free" : w == QUEUED ? "queued" : "current"; }
static void job_is(Job* j, const char* at) {
  const Kind& k = KINDS[j->kind]; I2CBusOp* o = j->op;
  MC_CHECK(o->buffer() == j->buf && o->bufferLen() == j->len, "job-buffer", "the job of %s has another buffer %s", k.name, at);
  MC_CHECK(o->get_opcode() == opcode_of(j), "job-opcode", "the job of %s has opcode %s %s", k.name, o->getOpcodeString(), at);
  MC_CHECK(o->dev_addr == k.dev && o->sub_addr == sub_of(j) && o->need_to_send_subaddr() == (sub_of(j) != -1), "job-address", "the job of %s is for %02x, %d %s", k.name, o->dev_addr, o->sub_addr, at);
  MC_CHECK(o->callback == (j->orphan || j->kind == 2 ? nullptr : j->kind == 1 ? (BusOpCallback*) dev : (BusOpCallback*) &owner), "job-owner", "the job of %s has another owner %s", k.name, at);
}
static void gone(Job* j) {
  j->where = FREE; if (!j->owned && j->op == prealloc_op) { last_use = KINDS[j->kind].name; last_use += (char) ('A' + (int) j->fault); }
}
static void take(std::vector<Job*>& q, Job* j) { q.erase(std::find(q.begin(), q.end(), j)); }

/* The platform's part. */
static Job* starting;                      // A job being submitted, that the bus may start at once.
static bool warm;
static bool (*ping_begin)(I2CBusOp*);
XferFault I2CBusOp::begin() {
  if (ping_begin) { set_state(XferState::TX_WAIT); if (ping_begin(this)) markComplete(); else abort(XferFault::DEV_NOT_FOUND); return XferFault::NONE; }
  if (warm) return XferFault::BUS_BUSY;
  Job* j = starting ? nullptr : job_of(this);
  MC_CHECK(j || starting, "begin-unknown", "a job that nobody has in the bus is started");
  if (!j) {
    j = starting; starting = nullptr; j->op = this;
    MC_CHECK(queue_.empty(), "begin-order", "a job is started as it is submitted, with %zu waiting", queue_.size());
    MC_CHECK(dispatching && !current, "begin-when", "a job is started as it is submitted, on a bus %s", current ? "that is busy" : "that does not do that");
    j->where = CURRENT; j->hw = NOT_YET; current = j; if (j->kind != 1) job_is(j, "at its start");
  }
  else {
    MC_CHECK(in_poll && !in_callback, "begin-when", "a job starts outside of poll()");
    if (current != j) {
      MC_CHECK(!current, "begin-two", "the job of %s is started while that of %s has the bus", KINDS[j->kind].name, current ? KINDS[current->kind].name : "");
      MC_CHECK(j->where == QUEUED && j == queue_.front(), "begin-order", "the job of %s is started before that of %s", KINDS[j->kind].name, queue_.empty() ? "nobody" : KINDS[queue_.front()->kind].name);
      take(queue_, j); current = j; j->where = CURRENT; j->hw = NOT_YET;
    }
    MC_CHECK(j->hw == NOT_YET, "begin-again", "a job that was started is started again");
    job_is(j, "at its start");
  }
  MC_CHECK(online, "begin-offline", "a job is started on a bus that is not there");
  MC_CHECK(!hasFault(), "begin-fault", "the job of %s starts with fault %s", KINDS[j->kind].name, getErrorString());
  MC_CHECK(device == bus, "job-adapter", "the job of %s is not on this bus", KINDS[j->kind].name);
  begun++;
  switch (draining ? 0 : mc::choose(4)) {
    case 0: mc::note("  it starts"); set_state(XferState::TX_WAIT); j->hw = IN_IO; return XferFault::NONE;
    case 1: mc::note("  the bus is busy"); return XferFault::BUS_BUSY;
    case 2: mc::note("  it fails to start"); abort(XferFault::BUS_FAULT); j->hw = DONE; j->fault = XferFault::BUS_FAULT; return XferFault::BUS_FAULT;
    default: mc::note("  it completes at once"); set_state(XferState::TX_WAIT); markComplete(); j->hw = DONE; j->fault = XferFault::NONE; return XferFault::NONE;
  }
}
static void hardware(Job* j, bool ok) {
  if (ok) { j->op->markComplete(); j->fault = XferFault::NONE; }
  else { j->op->abort(XferFault::DEV_FAULT); j->fault = XferFault::DEV_FAULT; }
  j->hw = DONE;
}
XferFault I2CBusOp::advance(uint32_t) {
  MC_CHECK(advancing && current && current->op == this && current->hw == IN_IO, "advance", "a job is advanced that does not have the bus");
  switch (draining ? 1 : mc::choose(3)) { case 0: break; case 1: hardware(current, true); break; default: hardware(current, false); }
  return XferFault::NONE;
}
int8_t I2CAdapter::_bus_init() { _pf_needs_op_advance(advancing); _pf_dispatch_on_queue(dispatching); return online ? 0 : -1; }
int8_t I2CAdapter::_bus_deinit() { return 0; }
void I2CAdapter::printHardwareState(StringBuilder*) {}

static unsigned outstanding() { unsigned n = 0; for (Job* j : jobs) n += !j->owned && j->where != FREE; return n; }
/* After a job was submitted: where it is. */
static void accepted(Job* j, bool ok) {
  const bool began = !starting; starting = nullptr;
  MC_CHECK(ok, "submit", "submitting a job that is idle fails%s", began ? ", and it was started" : "");
  if (began) return;
  MC_CHECK(!(dispatching && online && !current && queue_.empty()), "dispatch", "a job is left waiting on a bus that is free, and starts them at once");
  j->where = QUEUED; j->hw = NOT_YET; j->fault = XferFault::NONE; queue_.push_back(j);
}
static Job* slot() { for (Job* x : jobs) if (!x->owned && x->where == FREE) return x; return nullptr; }
static bool new_job(unsigned kind, unsigned how) {
  const unsigned n = outstanding(); const bool have = n < POOL + MAXQ; Job* j = slot(); Job spare; if (!j) j = &spare;
  *j = Job(); j->kind = kind; j->how = how;
  if (kind == 1) {
    if (!dev) return false;
    if (how < 2) { j->buf = how ? static_buf + 1 : static_buf; j->len = how ? 3 : 4; }
    starting = j; const unsigned b0 = begun; const bool ok = dev->go(how);
    if (!have) { starting = nullptr; MC_CHECK(!ok && begun == b0, "pool", "a device's job is accepted with no transaction left"); return false; }
    if (begun == b0) {
      // It is at the end of the queue: get hold of it.
      StringBuilder none; accepted(j, ok); j->op = nullptr; return true;
    }
    accepted(j, ok); return true;
  }
  I2CBusOp* o = bus->new_op(KINDS[kind].oc, kind == 2 ? nullptr : &owner);
  MC_CHECK(!!o == have, "pool", "with %u transactions out, asking for another gives %s", n, o ? "one" : "none");
  if (!o) return false;
  for (Job* x : jobs) MC_CHECK(x->where == FREE || x->op != o, "pool-twice", "a transaction is given out twice");
  MC_CHECK(o->isIdle() && !o->hasFault() && !o->shouldFreeBuffer() && !o->buffer() && !o->bufferLen() && o->sub_addr == -1 && o->dev_addr == 0 && o->get_opcode() == KINDS[kind].oc
    && o->callback == (kind == 2 ? nullptr : &owner), "fresh", "a new transaction is not a fresh one: %s, fault %s, flag %d, buffer %p, %02x, %d", o->getStateString(), o->getErrorString(), o->shouldFreeBuffer(), o->buffer(), o->dev_addr, o->sub_addr);
  const Kind& k = KINDS[kind]; j->op = nullptr;
  if (k.heap) { j->buf = (uint8_t*) malloc(3); j->len = 3; } else { j->buf = static_buf; j->len = 4; }
  o->setBuffer(j->buf, j->len); o->shouldFreeBuffer(k.flag); o->dev_addr = k.dev; o->sub_addr = k.sub;
  starting = j; const int r = bus->queue_io_job(o); j->op = o;
  accepted(j, r == 0);
  return true;
}
static int8_t told(BusOp* o, unsigned who) {
  Job* j = job_of(o); called++;
  MC_CHECK(j, "callback-unknown", "a callback for a transaction that is in nobody's hands");
  const Kind& k = KINDS[j->kind];
  MC_CHECK(j->kind == who, "callback-who", "the job of %s is reported to %s", k.name, KINDS[who].name);
  MC_CHECK(o->isComplete(), "callback-state", "the job of %s is called back as %s", k.name, o->getStateString());
  if (purging) {
    MC_CHECK(o->getFault() == XferFault::QUEUE_FLUSH || (j->where == CURRENT && j->hw == DONE && o->getFault() == j->fault), "purge-fault", "a purged job reports %s", o->getErrorString());
  }
  else {
    MC_CHECK(in_poll && j == current && j->hw == DONE, "callback-early", "a job that is %s%s is called back", where_s(j->where), j->where == CURRENT ? ", and not done" : "");
    MC_CHECK(o->getFault() == j->fault, "callback-fault", "the job of %s reports %s, not %s", k.name, o->getErrorString(), BusOp::getErrorString(j->fault));
  }
  job_is(j, "at its callback");
  const bool can_r = recycles && !draining, can_s = resubmits && !draining && !purging;
  auto left = [&]() { if (j->where == QUEUED) take(queue_, j); else current = nullptr; };
  switch (draining ? 0 : mc::choose(2 + can_r + can_s)) {
    case 0: left(); gone(j); return BUSOP_CALLBACK_NOMINAL;
    case 1: mc::note("  its owner says there was an error"); left(); gone(j); return BUSOP_CALLBACK_ERROR;
    case 2: if (can_r) {
      mc::note("  its owner wants it to run again"); recycles--; left();
      if (purging) gone(j); else { j->where = QUEUED; j->hw = NOT_YET; j->fault = XferFault::NONE; queue_.push_back(j); }
      return BUSOP_CALLBACK_RECYCLE;
    }  // else fall through
    default: {
      mc::note("  its owner submits another"); resubmits--; in_callback = true;
      new_job(0, 0); in_callback = false; left(); gone(j); return BUSOP_CALLBACK_NOMINAL;
    }
  }
}
static void same() {
  Job* c = current;
  MC_CHECK(!!bus->currentJob() == !!c, "current", "the bus %s", c ? "has lost its job in progress" : "has an unknown job in progress");
  if (c && !c->op) c->op = bus->currentJob();
  MC_CHECK(bus->currentJob() == (c ? c->op : nullptr), "current", "the bus has another job in progress");
  MC_CHECK(bus->busIdle() == (!c && queue_.empty()), "idle", "the bus %s idle, with %zu jobs queued", bus->busIdle() ? "is" : "is not", queue_.size());
  MC_CHECK(bus->roomInQueue() == (queue_.size() < MAXQ), "room", "with %zu jobs queued there %s room", queue_.size(), bus->roomInQueue() ? "is" : "is no");
  MC_CHECK(bus->busOnline() == online && bus->busError() == !online, "online", "the bus %s online", bus->busOnline() ? "is" : "is not");
  for (Job* j : queue_) if (j->op) MC_CHECK(j->op->isQueued(), "queued", "a queued job is %s", j->op->getStateString());
  if (own.where == FREE) MC_CHECK(own_op->isIdle(), "own-idle", "the transaction that its owner keeps is %s after use", own_op->getStateString());
}
static S key() {
  S k; auto one = [&](Job* j) { k += (char) ('a' + j->kind); k += (char) ('0' + j->how); k += j->owned ? 'o' : j->op == prealloc_op ? 'p' : 'd'; k += (char) ('0' + j->hw); k += (char) ('A' + (int) j->fault); k += j->orphan ? 'x' : '.'; };
  for (Job* j : queue_) one(j); k += '|'; if (current) one(current);
  k += '|'; k += (char) ('0' + recycles); k += (char) ('0' + resubmits); k += last_use; k += prealloc_op ? '1' : '0'; k += (char) ('0' + own.where); k += (char) ('A' + (int) own_op->getFault()); k += dev ? 'D' : '-';
  return k;
}
/* A transaction of the device that waits in the queue is not in our hands until it starts: find it by asking the pool. */
static unsigned purge_silent(unsigned kind_mask, bool queued) {   // Jobs that leave without anybody being told.
  unsigned n = 0;
  for (size_t i = 0; queued && i < queue_.size();) { Job* j = queue_[i]; if ((kind_mask >> j->kind & 1) && j->kind == 2) { queue_.erase(queue_.begin() + i); gone(j); n++; } else i++; }
  return n;
}
static void poll_now() {
  // A job that is done, and that nobody waits for, leaves quietly.
  const unsigned c0 = called, b0 = begun; Job* done = current && current->hw == DONE ? current : nullptr;
  const bool quiet = done && (done->kind == 2 || done->orphan), retry = current && current->hw == NOT_YET;
  const bool was_idle = !current && queue_.empty();
  if (quiet && online) { current = nullptr; gone(done); }
  in_poll = true; const PollResult r = bus->poll(); in_poll = false;
  MC_CHECK(r != PollResult::ERROR, "poll", "poll() returns an error");
  if (!online) { MC_CHECK(begun == b0 && called == c0, "offline", "poll() of a bus that is not there does something"); return; }
  if (was_idle) MC_CHECK(r == PollResult::NO_ACTION, "poll-idle", "poll() of an idle bus does something");
  MC_CHECK((called - c0) == (done && !quiet), "poll-callback", "poll() made %u callbacks, with the job in progress %s", called - c0, done ? "done" : "not done");
  MC_CHECK(begun - b0 <= 1, "poll-start", "poll() started %u jobs", begun - b0);
  if (retry) MC_CHECK(begun == b0 + 1, "poll-start", "poll() does not try again to start a job");
  MC_CHECK(current || queue_.empty(), "poll-start", "poll() leaves %zu jobs waiting on a free bus", queue_.size());
  if (r == PollResult::ACTION) MC_CHECK(bus->busIdle(), "poll-result", "poll() did something, and does not want to be polled again");
}

static void history(unsigned depth, bool d_, bool a, bool on) {
  dispatching = d_; advancing = a; online = on;
  plat::reset(); jobs.reserve(8); queue_.reserve(8); last_use.reserve(64); last_use = "";
  static Job slots[POOL + MAXQ]; jobs.clear(); queue_.clear(); for (Job& s : slots) { s = Job(); jobs.push_back(&s); }
  own = Job(); own.owned = true; jobs.push_back(&own); current = nullptr; recycles = 1; resubmits = 1; purging = draining = in_poll = in_callback = false; called = begun = 0; prealloc_op = nullptr; starting = nullptr;
  std::vector<S>().swap(plat::log); const int64_t base = mc::live_blocks();
  own_op = new I2CBusOp(KINDS[0].oc, KINDS[0].dev, KINDS[0].sub, static_buf, 4);
  MC_CHECK(own_op->dev_addr == KINDS[0].dev && own_op->sub_addr == KINDS[0].sub && own_op->buffer() == static_buf && own_op->bufferLen() == 4 && own_op->get_opcode() == KINDS[0].oc && own_op->isIdle(), "construct", "a transaction made for %02x is for %02x, %d", KINDS[0].dev, own_op->dev_addr, own_op->sub_addr);
  own_op->callback = &owner; own_op->shouldReap(false); own.op = own_op;
  I2CAdapterOptions opts(0, 1, 2); bus = new I2CAdapter(&opts, POOL, MAXQ);
  dev = new Dev(); dev->setAdapter(bus);
  MC_CHECK((bus->init() == 0) == online, "init", "the bus does not come up as it should");
  if (mc::thorough) bus->setVerbosity(7);
  // Which transaction is the bus's own; it starts out used and given back.
  warm = true; prealloc_op = bus->new_op(BusOpcode::RX, nullptr); MC_CHECK(prealloc_op && !prealloc_op->shouldReap(), "pool", "the bus has no transaction of its own");
  bus->queue_io_job(prealloc_op); bus->purge_queued_work(); bus->purge_current_job(); warm = false;
  same();
  for (unsigned d = 0; d < depth; d++) {
    mc::state(key(), depth - d);
    std::vector<int> ev{0, 1, 2, 3, 4, 5}; if (dev && mc::thorough) { ev.push_back(6); }
    if (!advancing && current && current->hw == IN_IO) { ev.push_back(7); ev.push_back(8); }
    ev.push_back(9); ev.push_back(11); ev.push_back(12); ev.push_back(13); if (dev) { ev.push_back(14); ev.push_back(15); } ev.push_back(16); ev.push_back(17);
    const int e = ev[mc::choose((uint32_t) ev.size())]; const unsigned c0 = called, b0 = begun;
    switch (e) {
      case 0: mc::op("a job of %s", KINDS[0].name); if (!new_job(0, 0)) mc::note("  none left"); break;
      case 1: mc::op("a job of %s", KINDS[2].name); if (!new_job(2, 0)) mc::note("  none left"); break;
      case 2: mc::op("the device reads"); if (!new_job(1, 0)) mc::note("  none left"); break;
      case 3: mc::op("the device writes"); if (!new_job(1, 1)) mc::note("  none left"); break;
      case 4: case 5: {
        if (e == 5 && own.where == FREE) throw mc::Prune();   // As the one before.
        mc::op("owner A submits its own transaction");
        if (own.where == FREE) { own.buf = static_buf; own.len = 4; starting = &own; own.op = nullptr; const int r = bus->queue_io_job(own_op); own.op = own_op; accepted(&own, r == 0); }
        else if (e == 5) throw mc::Prune();
        else { const int r = bus->queue_io_job(own_op); MC_CHECK(r < 0, "submit-twice", "a transaction that is %s is accepted again: %d", where_s(own.where), r); MC_CHECK(begun == b0, "submit-twice", "a transaction that is %s is started again", where_s(own.where)); }
        break;
      }
      case 6: mc::op("the device pings"); if (!new_job(1, 2)) mc::note("  none left"); break;
      case 7: mc::op("the job in progress completes"); hardware(current, true); break;
      case 8: mc::op("the job in progress fails"); hardware(current, false); break;
      case 9: mc::op("poll"); poll_now(); break;
      case 11: {
        mc::op("purge the job in progress"); const bool any = current, quiet = any && (current->kind == 2 || current->orphan);
        if (quiet) { gone(current); current = nullptr; }
        purging = true; bus->purge_current_job(); purging = false;
        MC_CHECK(called - c0 == (any && !quiet), "purge-current", "purging the job in progress made %u callbacks", called - c0);
        break;
      }
      case 12: {
        mc::op("purge the queue"); purge_silent(7, true); const unsigned n = queue_.size();
        // The transactions of the device get into our hands as they are called back.
        purging = true; bus->purge_queued_work(); purging = false;
        MC_CHECK(called - c0 == n, "purge", "purging %u jobs made %u callbacks", n, called - c0);
        break;
      }
      case 13: case 14: {
        const unsigned k = e == 13 ? 0 : 1; unsigned n = 0;
        mc::op("purge the jobs of %s", KINDS[k].name); for (Job* j : queue_) n += j->kind == k;
        purging = true; const int r = bus->purge_queued_work_by_dev(k ? (BusOpCallback*) dev : (BusOpCallback*) &owner); purging = false;
        MC_CHECK(r == (int) n, "purge-count", "%u jobs are purged, and %d claimed", n, r);
        MC_CHECK(called - c0 == n, "purge", "purging %u jobs made %u callbacks", n, called - c0);
        break;
      }
      case 15: {
        mc::op("the device goes away"); delete dev; dev = nullptr;
        for (size_t i = 0; i < queue_.size();) if (queue_[i]->kind == 1) { gone(queue_[i]); queue_.erase(queue_.begin() + i); } else i++;
        if (current && current->kind == 1) current->orphan = true;
        MC_CHECK(called == c0, "departed", "a device that is going away is called back");
        break;
      }
      case 16: {
        mc::op("printing"); StringBuilder out; bus->printAdapter(&out); bus->printWorkQueue(&out, 3); MC_CHECK(out.length() > 0, "print", "nothing printed");
        break;
      }
      default: {
        if (dev) throw mc::Prune();
        mc::op("a device appears"); dev = new Dev(); dev->setAdapter(bus);
      }
    }
    if (e != 9 && (e < 11 || e > 14)) MC_CHECK(called == c0, "alone", "a callback was made by neither poll nor a purge");
    if (e > 4 && e != 6 && e != 9) MC_CHECK(begun == b0, "alone", "a job was started by neither poll nor its submission");
    same();
  }
  mc::op("everything runs to its end");
  draining = true;
  if (!online) { purge_silent(7, true); purging = true; bus->purge_queued_work(); purging = false; }
  for (int i = 0; i < 40 && !bus->busIdle(); i++) {
    if (!advancing && current && current->hw == IN_IO) hardware(current, true);
    poll_now(); same();
  }
  MC_CHECK(bus->busIdle() && !current && queue_.empty(), "drain", "the bus does not come to rest");
  MC_CHECK(outstanding() == 0 && own.where == FREE, "drain", "a job was never called back");
  // The pool is whole.
  { std::vector<I2CBusOp*> got; got.reserve(POOL + MAXQ + 1);
    for (unsigned i = 0; i <= POOL + MAXQ; i++) if (I2CBusOp* o = bus->new_op(BusOpcode::RX, &owner)) { MC_CHECK(o->isIdle() && !o->shouldFreeBuffer() && o->dev_addr == 0 && o->sub_addr == -1 && !o->buffer() && !o->hasFault(), "fresh", "at the end, a new transaction is not a fresh one"); got.push_back(o); }
    MC_CHECK(got.size() == POOL + MAXQ, "pool-end", "at the end %zu transactions are to be had, not %u", got.size(), POOL + MAXQ);
    for (I2CBusOp* o : got) if (o->shouldReap()) delete o; }
  if (dev) { delete dev; dev = nullptr; }
  delete bus; delete own_op;
  std::vector<S>().swap(plat::log);
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

/* A sweep of the bus: each address from the first on, once, in order, and the map shows who answered. */
static std::vector<int> asked; static bool there[128]; static unsigned dev_told, dev_begun;
static bool on_ping(I2CBusOp* o) {
  if (o->callback != (BusOpCallback*) bus) { MC_CHECK(o->dev_addr == 0x21, "ping-device", "a device's job is for %02x", o->dev_addr); dev_begun++; return true; }
  MC_CHECK(o->get_opcode() == BusOpcode::TX_CMD && !o->need_to_send_subaddr() && !o->bufferLen(), "ping-what", "a ping sends something");
  asked.push_back(o->dev_addr); return o->dev_addr < 128 && there[o->dev_addr];
}
struct Quiet : I2CDevice { Quiet() : I2CDevice(0x21) {} int8_t io_op_callback(BusOp* o) { dev_told++; MC_CHECK(!o->hasFault(), "ping-device", "the device's job fails"); return BUSOP_CALLBACK_NOMINAL; } bool go() { return ping_device(); } };
static void sweeps() {
  plat::reset(); online = true; advancing = false; dispatching = mc::flip();
  const unsigned from = mc::choose(128);
  mc::op("sweeps from %02x, on a bus that starts jobs %s, for every set of devices", from, dispatching ? "at once" : "when polled");
  for (unsigned set = 0; set < 131; set++) {
    for (unsigned i = 0; i < 128; i++) there[i] = set < 128 ? i == set : set == 128 ? true : set == 129 ? false : i % 3 == 1;
    I2CAdapterOptions opts(0, 1, 2); bus = new I2CAdapter(&opts, 2, 2); ping_begin = on_ping; bus->init(); Quiet q; q.setAdapter(bus); dev_told = dev_begun = 0;
    for (unsigned sweep = 0; sweep < 2; sweep++) {      // The second is from the start, with everything the other way around.
      const unsigned first = sweep ? 0 : from; asked.clear(); if (sweep) for (bool& b : there) b = !b;
      bus->ping_slave_addr(first);
      if (!sweep) MC_CHECK(q.go(), "ping-device", "no job is taken during a sweep");
      unsigned n = 0; while (!bus->busIdle() && n++ < 400) bus->poll();
      MC_CHECK(bus->busIdle(), "ping-end", "a sweep from %02x goes on after %u polls", first, n);
      MC_CHECK(asked.size() == 128 - first, "ping-all", "a sweep from %02x asks for %zu addresses, not %u", first, asked.size(), 128 - first);
      for (unsigned i = 0; i < asked.size(); i++) MC_CHECK(asked[i] == (int) (first + i), "ping-order", "a sweep from %02x asks for %02x, not %02x", first, asked[i], first + i);
      MC_CHECK(dev_told == 1 && dev_begun == 1, "ping-device", "during a sweep a device's job was started %u and reported %u times", dev_begun, dev_told);
      StringBuilder out; bus->printPingMap(&out); const char* t = (const char*) out.string();
      for (unsigned r = 0; r < 8; r++) {
        char head[8]; snprintf(head, sizeof(head), "0x%02x: ", r * 16); const char* row = t ? strstr(t, head) : nullptr;
        MC_CHECK(row, "ping-map", "the map has no row for %s", head); row += 6;
        for (unsigned i = 0; i < 16; i++) { const unsigned a = r * 16 + i; const char want = a < first ? ' ' : there[a] ? '*' : '.'; MC_CHECK(row[i * 2] == want, "ping-map", "the map says '%c' of %02x, not '%c'", row[i * 2], a, want); }
      }
    }
    MC_CHECK(q.go(), "ping-after", "a device's job is not taken after a sweep"); while (!bus->busIdle()) bus->poll();
    MC_CHECK(dev_told == 2, "ping-after", "a device's ping is not reported");
    q.setAdapter(nullptr); delete bus; ping_begin = nullptr; mc::steps(256);
  }
}

int main(int argc, char** argv) {
  const bool t = getenv("VERIF_TIER") && S(getenv("VERIF_TIER")) == "thorough";
  const unsigned n = t ? 7 : 6;
  std::vector<mc::Config> c;
  for (int g = 0; g < 2; g++) for (int a = 0; a < 2; a++)
    c.push_back(mc::Config(S(g ? "at-once" : "queued") + (a ? "-polled" : "-irq"), [=] { history(n, g, a, true); }, 2, "every history of " + std::to_string(n) + " events (submit, hardware outcome, poll, purge, departure), pool 1 + 2"));
  c.push_back(mc::Config("offline", [=] { history(n - 1, true, false, false); }, 2, "every history of " + std::to_string(n - 1) + " events on a bus that did not come up"));
  c.push_back(mc::Config("sweeps", sweeps, 2, "from every address, with each one device, all, none, a third, and their opposites"));
  return mc::main(argc, argv, "C38", c, {"the platform's begin() either starts the job, finds the bus busy, fails it, or completes it"});
}
