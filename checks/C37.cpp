/* C37: SPI bus. Every history of submissions, hardware outcomes, polls, callbacks and purges, against a list. */
#include "../mc/mc.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include "BusQueue/SPIAdapter.h"
#include <algorithm>
typedef std::string S;

static const unsigned POOL = 1, MAXQ = 2;
static bool guard, advancing;                 // How the platform is configured.

enum Where { FREE, QUEUED, CURRENT, FINISHED };
enum Hw { NOT_YET, IN_IO, DONE };
struct Kind { const char* name; bool heap; bool flag; uint8_t cs; bool ah; uint32_t freq; uint8_t nparam; BusOpcode oc; bool adapter_cb; };
static const Kind KINDS[] = {
  {"A (its own buffer)",          false, false, 10, false, 0,       0, BusOpcode::TX, false},
  {"B (buffer to be freed)",      true,  true,  11, true,  1000000, 2, BusOpcode::RX, false},
  {"C (no buffer, but the flag)", false, true,  12, false, 4000,    8, BusOpcode::TX_CMD, true},
};
static const unsigned NK = 3;
struct Job {
  SPIBusOp* op = nullptr; unsigned kind = 0, prio = 0; bool owned = false; Where where = FREE; Hw hw = NOT_YET;
  uint8_t* buf = nullptr; uint16_t len = 0; bool refused = false, either = false; XferFault fault = XferFault::NONE;
};
static std::vector<Job*> jobs, queue_, finished; static Job* current; static unsigned recycles, resubmits; static SPIAdapter* bus; static bool purging, draining;
static unsigned called, begun; static bool was_polled; static bool pin[16]; static bool pin_known[16]; static bool in_poll;
static S last_use; static SPIBusOp* prealloc_op;
static uint8_t static_buf[4];

static Job* job_of(BusOp* o) { for (Job* j : jobs) if (j->op == (SPIBusOp*) o && j->where != FREE) return j; return nullptr; }
static const char* where_s(Where w) { return w == FREE ? "free" : w == QUEUED ? "queued" : w == CURRENT ? "current" : "finished"; }

static void job_is(Job* j, const char* at) {
  const Kind& k = KINDS[j->kind]; SPIBusOp* o = j->op;
  MC_CHECK(o->buffer() == j->buf && o->bufferLen() == j->len, "job-buffer", "the job of %s has another buffer %s", k.name, at);
  MC_CHECK(o->get_opcode() == k.oc, "job-opcode", "the job of %s has opcode %s %s", k.name, o->getOpcodeString(), at);
  MC_CHECK(o->getCSPin() == k.cs && o->csActiveHigh() == k.ah, "job-cs", "the job of %s has another chip select %s", k.name, at);
  MC_CHECK(o->maxFreq() == k.freq, "job-freq", "the job of %s is limited to %u Hz %s, not %u", k.name, o->maxFreq(), at, k.freq);
  MC_CHECK(o->cpol() == (k.nparam == 8) && o->cpha() == (k.nparam == 2), "job-mode", "the job of %s has another clock mode %s", k.name, at);
  MC_CHECK(o->bitsPerFrame() == (k.nparam == 8 ? 16 : 8), "job-frame", "the job of %s has frames of %u bits %s", k.name, o->bitsPerFrame(), at);
  MC_CHECK(o->transferParamLength() == k.nparam, "job-params", "the job of %s has %u parameters %s", k.name, o->transferParamLength(), at);
  for (unsigned i = 0; i < k.nparam; i++) MC_CHECK(o->getTransferParam(i) == 0x40 + i, "job-params", "parameter %u of the job of %s is %02x %s", i, k.name, o->getTransferParam(i), at);
  MC_CHECK(o->getAdapter() == bus, "job-adapter", "the job of %s is not on this bus %s", k.name, at);
}
static void gone(Job* j) {
  j->where = FREE; if (!j->owned && j->op == prealloc_op) last_use = KINDS[j->kind].name;
  if (j->buf && KINDS[j->kind].flag) j->buf = nullptr, j->len = 0;
}
static Job* next_of(const std::vector<Job*>& q) { Job* b = nullptr; for (Job* j : q) if (!b || j->prio > b->prio) b = j; return b; }
static void take(std::vector<Job*>& q, Job* j) { q.erase(std::find(q.begin(), q.end(), j)); }

/* The platform's part. */
static void start_checks(SPIBusOp* o) {
  Job* j = job_of(o);
  MC_CHECK(in_poll, "begin-when", "a job starts outside of poll()");
  MC_CHECK(j, "begin-unknown", "a job that nobody has in the bus is started");
  if (current != j) {
    MC_CHECK(!current, "begin-two", "the job of %s is started while that of %s has the bus", KINDS[j->kind].name, KINDS[current->kind].name);
    MC_CHECK(j->where == QUEUED, "begin-again", "a job that is %s is started", where_s(j->where));
    MC_CHECK(j == next_of(queue_), "begin-order", "the job of %s (priority %u) is started before that of %s (priority %u)", KINDS[j->kind].name, j->prio, KINDS[next_of(queue_)->kind].name, next_of(queue_)->prio);
    take(queue_, j); current = j; j->where = CURRENT; j->hw = NOT_YET;
  }
  MC_CHECK(j->hw == NOT_YET, "begin-again", "a job that was started is started again");
  MC_CHECK(!o->hasFault(), "begin-fault", "the job of %s starts with fault %s", KINDS[j->kind].name, o->getErrorString());
  job_is(j, "at its start"); begun++;
}
XferFault SPIBusOp::begin() {
  start_checks(this); Job* j = current;
  switch (draining ? 0 : mc::choose(4)) {
    case 0: mc::note("  it starts"); set_state(XferState::TX_WAIT); _assert_cs(true); j->hw = IN_IO; return XferFault::NONE;
    case 1: mc::note("  the bus is busy"); return XferFault::BUS_BUSY;
    case 2: mc::note("  it fails to start"); abort(XferFault::BUS_FAULT); j->hw = DONE; j->fault = XferFault::BUS_FAULT; current = nullptr; j->where = FINISHED; finished.push_back(j); return XferFault::BUS_FAULT;
    default: mc::note("  it completes at once"); set_state(XferState::TX_WAIT); _assert_cs(true); markComplete(); j->hw = DONE; j->fault = XferFault::NONE; return XferFault::NONE;
  }
}
static void hardware(Job* j, bool ok) {
  if (ok) { j->op->markComplete(); j->fault = XferFault::NONE; }
  else { j->op->abort(XferFault::DEV_FAULT); j->fault = XferFault::DEV_FAULT; }
  j->hw = DONE;
}
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) {
  MC_CHECK(advancing && current && current->op == this && current->hw == IN_IO, "advance", "a job is advanced that does not have the bus");
  switch (draining ? 1 : mc::choose(3)) { case 0: break; case 1: hardware(current, true); break; default: hardware(current, false); }
  return 0;
}
static int8_t told(BusOp* o, unsigned who);
int8_t SPIAdapter::_bus_init() { if (guard) _adapter_set_flag(SPI_FLAG_QUEUE_GUARD); _pf_needs_op_advance(advancing); return 0; }
int8_t SPIAdapter::_bus_deinit() { return 0; }
int8_t SPIAdapter::io_op_callahead(BusOp*) { return 0; }
int8_t SPIAdapter::io_op_callback(BusOp* o) { return told(o, 2); }
int8_t SPIAdapter::setMode(const uint8_t) { return 0; }
int8_t SPIAdapter::frequency(const uint32_t) { return 0; }
void SPIAdapter::printDebug(StringBuilder*) {}
void SPIAdapter::printHardwareState(StringBuilder*) {}

struct Owner : BusOpCallback {
  unsigned who; Owner(unsigned w) : who(w) {}
  int8_t io_op_callahead(BusOp*) { return 0; }
  int8_t io_op_callback(BusOp* o) { return told(o, who); }
  int8_t queue_io_job(BusOp* o) { return bus->queue_io_job(o); }
};
static Owner owner[2] = {Owner(0), Owner(1)};
static Job own;                            // The transaction that owner A keeps for itself.
static SPIBusOp* own_op;

static void fill(Job* j) {
  const Kind& k = KINDS[j->kind]; SPIBusOp* o = j->op;
  if (k.heap) { j->buf = (uint8_t*) malloc(3); j->len = 3; } else if (!k.flag) { j->buf = static_buf; j->len = 4; } else { j->buf = nullptr; j->len = 0; }
  o->setBuffer(j->buf, j->len); o->shouldFreeBuffer(k.flag); o->setCSPin(k.cs); o->csActiveHigh(k.ah); if (k.freq) o->maxFreq(k.freq);
  o->cpol(k.nparam == 8); o->cpha(k.nparam == 2); o->bitsPerFrame(k.nparam == 8 ? SPIFrameSize::BITS_16 : SPIFrameSize::BITS_8);
  if (k.nparam == 2) o->setParams(0x40, 0x41); else if (k.nparam == 8) o->setParams(0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47);
}
static unsigned outstanding() { unsigned n = 0; for (Job* j : jobs) n += !j->owned && j->where != FREE; return n; }
static void accepted(Job* j, int ret, unsigned prio) {
  if (guard && queue_.size() >= MAXQ) {
    MC_CHECK(ret < 0, "full-accepted", "a job is accepted into a queue that is full: %d", ret);
    j->where = FINISHED; j->refused = true; j->fault = XferFault::QUEUE_FLUSH; finished.push_back(j);
  }
  else {
    MC_CHECK(ret == 0, "submit", "submitting a job returns %d", ret);
    MC_CHECK(j->op->isQueued(), "submit-state", "a queued job is %s", j->op->getStateString());
    j->where = QUEUED; j->prio = prio; j->refused = false; j->fault = XferFault::NONE; queue_.push_back(j);
  }
  j->hw = NOT_YET; j->either = false;
}
static bool new_job(unsigned kind, unsigned prio) {
  const unsigned n = outstanding();
  SPIBusOp* o = bus->new_op(KINDS[kind].oc, KINDS[kind].adapter_cb ? nullptr : &owner[kind]);
  MC_CHECK(!!o == (n < POOL + MAXQ), "pool", "with %u transactions out, asking for another gives %s", n, o ? "one" : "none");
  if (!o) return false;
  if (!prealloc_op && n == 0) prealloc_op = o;
  for (Job* x : jobs) MC_CHECK(x->where == FREE || x->op != o, "pool-twice", "a transaction is given out twice");
  MC_CHECK(o->isIdle() && !o->hasFault() && !o->shouldFreeBuffer() && !o->buffer() && !o->bufferLen() && !o->maxFreq() && o->getCSPin() == 255 && !o->csAsserted()
    && !o->csActiveHigh() && !o->cpol() && !o->cpha() && o->bitsPerFrame() == 8 && !o->transferParamLength() && o->get_opcode() == KINDS[kind].oc
    && o->callback == (KINDS[kind].adapter_cb ? nullptr : &owner[kind]), "fresh", "a new transaction is not a fresh one: %s, fault %s, flag %d, buffer %p, freq %u, cs %u", o->getStateString(), o->getErrorString(), o->shouldFreeBuffer(), o->buffer(), o->maxFreq(), o->getCSPin());
  Job* j = nullptr; for (Job* x : jobs) if (!x->owned && x->where == FREE) { j = x; break; }
  if (!j) { fprintf(stderr, "no free job\n"); abort(); }
  j->op = o; j->kind = kind; fill(j);
  accepted(j, prio ? bus->queue_io_job(o, prio) : bus->queue_io_job(o), prio);
  return true;
}
static bool expected_fault(Job* j, XferFault f) { return f == j->fault || (j->either && f == XferFault::QUEUE_FLUSH); }
static int8_t told(BusOp* o, unsigned who) {
  Job* j = job_of(o); called++;
  MC_CHECK(j, "callback-unknown", "a callback for a transaction that is in nobody's hands");
  const Kind& k = KINDS[j->kind];
  MC_CHECK(j->kind == who, "callback-who", "the job of %s is reported to %s", k.name, KINDS[who].name);
  if (purging) MC_CHECK(j->where == QUEUED || j->where == CURRENT, "purge-what", "a %s job is purged", where_s(j->where));
  else {
    MC_CHECK(j->where == FINISHED, "callback-early", "a job that is %s is called back", where_s(j->where));
    Job* first = nullptr; for (Job* x : finished) if (!x->refused) { first = x; break; }
    MC_CHECK(j->refused || j == first, "callback-order", "the job of %s is called back ahead of that of %s", k.name, first ? KINDS[first->kind].name : "?");
  }
  MC_CHECK(o->isComplete(), "callback-state", "the job of %s is called back as %s", k.name, o->getStateString());
  if (purging) {
    MC_CHECK(o->getFault() == XferFault::QUEUE_FLUSH || (j->where == CURRENT && j->hw == DONE && o->getFault() == j->fault), "purge-fault", "a purged job reports %s", o->getErrorString());
    if (j->where == QUEUED) take(queue_, j); else current = nullptr;
  }
  else {
    MC_CHECK(expected_fault(j, o->getFault()), "callback-fault", "the job of %s reports %s, not %s", k.name, o->getErrorString(), BusOp::getErrorString(j->fault));
    take(finished, j);
  }
  MC_CHECK(!j->op->csAsserted(), "callback-cs", "a job that is called back has its chip selected");
  job_is(j, "at its callback");
  // What its owner makes of it.
  unsigned opts = 1; bool can_r = recycles && !draining, can_s = resubmits && !draining && !purging;
  switch (draining ? 0 : mc::choose(2 + can_r + can_s)) {
    case 0: gone(j); return BUSOP_CALLBACK_NOMINAL;
    case 1: mc::note("  its owner says there was an error"); gone(j); return BUSOP_CALLBACK_ERROR;
    case 2: if (can_r) {
      mc::note("  its owner wants it to run again"); recycles--;
      if (purging) { gone(j); return BUSOP_CALLBACK_RECYCLE; }
      j->where = QUEUED; j->prio = 0; j->hw = NOT_YET; j->either = false;
      if (guard && queue_.size() >= MAXQ) { j->where = FINISHED; j->refused = true; j->fault = XferFault::QUEUE_FLUSH; finished.push_back(j); }
      else { j->refused = false; j->fault = XferFault::NONE; queue_.push_back(j); }
      return BUSOP_CALLBACK_RECYCLE;
    }  // else fall through
    default: {
      mc::note("  its owner submits another"); resubmits--;
      new_job(0, 0); gone(j); return BUSOP_CALLBACK_NOMINAL;
    }
  }
}
static void on_pin(uint8_t p, bool level) {
  MC_CHECK(p < 16, "pin", "pin %u is set", p); pin[p] = level; pin_known[p] = true;
}
static void same() {
  Job* c = current;
  MC_CHECK(bus->currentJob() == (c ? c->op : nullptr), "current", "the bus %s job in progress", c ? "has lost its" : "has an unknown");
  MC_CHECK(bus->busIdle() == (!c && queue_.empty()), "idle", "the bus %s idle, with %zu jobs queued", bus->busIdle() ? "is" : "is not", queue_.size());
  MC_CHECK(bus->allQueuesClear() == (!c && queue_.empty() && finished.empty()), "clear", "the queues %s clear, with %zu queued and %zu finished", bus->allQueuesClear() ? "are" : "are not", queue_.size(), finished.size());
  MC_CHECK(bus->roomInQueue() == (queue_.size() < MAXQ), "room", "with %zu jobs queued there %s room", queue_.size(), bus->roomInQueue() ? "is" : "is no");
  for (unsigned k = 0; k < NK; k++) {
    const uint8_t p = KINDS[k].cs; const bool want = c && c->kind == k && c->hw == IN_IO;
    if (!pin_known[p]) { MC_CHECK(!want, "cs", "the chip of %s is not selected", KINDS[k].name); continue; }
    const bool is = pin[p] == KINDS[k].ah;
    MC_CHECK(is == want, "cs", "the chip of %s is%s selected%s", KINDS[k].name, is ? "" : " not", want ? " while its job has the bus" : "");
  }
  for (Job* j : queue_) MC_CHECK(j->op->isQueued(), "queued", "a queued job is %s", j->op->getStateString());
  if (own.op && own.where == FREE) MC_CHECK(own.op->isIdle(), "own-idle", "the transaction that its owner keeps is %s after use", own.op->getStateString());
}
static S key() {
  S k; auto one = [&](Job* j) { k += (char) ('a' + j->kind); k += (char) ('0' + j->prio); k += j->owned ? 'o' : j->op == prealloc_op ? 'p' : 'd'; k += (char) ('0' + j->hw); k += (char) ('A' + (int) j->fault); k += j->refused ? 'R' : '.'; };
  for (Job* j : queue_) one(j); k += '|'; if (current) one(current); k += '|'; for (Job* j : finished) one(j);
  k += '|'; k += (char) ('0' + recycles); k += (char) ('0' + resubmits); k += last_use; k += prealloc_op ? '1' : '0'; k += (char) ('0' + own.where); k += (char) ('A' + (int) own_op->getFault());
  for (unsigned i = 10; i < 13; i++) k += pin_known[i] ? '1' : '0';
  return k;
}
static void clean() { for (Job* j : jobs) { if (j->buf && j->buf != static_buf) { } } }

static void history(unsigned depth, bool g, bool a) {
  guard = g; advancing = a;
  plat::reset(); plat::pin_hook = on_pin;
  jobs.reserve(8); queue_.reserve(8); finished.reserve(8); last_use.reserve(64); last_use = "";
  static Job slots[POOL + MAXQ + 1]; jobs.clear(); queue_.clear(); finished.clear(); for (Job& s : slots) { s = Job(); jobs.push_back(&s); }
  own = Job(); own.owned = true; jobs.push_back(&own); current = nullptr; recycles = 1; resubmits = 1; purging = draining = in_poll = false; called = begun = 0; prealloc_op = nullptr;
  memset(pin_known, 0, sizeof(pin_known));
  std::vector<S>().swap(plat::log); const int64_t base = mc::live_blocks();
  own_op = new SPIBusOp(KINDS[0].oc, &owner[0], KINDS[0].cs, KINDS[0].ah); own.op = own_op; own_op->shouldReap(false);
  bus = new SPIAdapter(0, 1, 2, 3, POOL, MAXQ);
  MC_CHECK(bus->init() == 0 && bus->busOnline() && !bus->busError(), "init", "the bus does not come up");
  if (mc::thorough) bus->setVerbosity(7);
  same();
  for (unsigned d = 0; d < depth; d++) {
    mc::state(key(), depth - d);
    std::vector<int> ev; for (int i = 0; i < 6; i++) ev.push_back(i);   // three owners, two priorities
    ev.push_back(6); if (!advancing && current && current->hw == IN_IO) { ev.push_back(7); ev.push_back(8); }
    ev.push_back(9); ev.push_back(10); ev.push_back(11); ev.push_back(12); ev.push_back(13); ev.push_back(14); ev.push_back(15);
    const int e = ev[mc::choose((uint32_t) ev.size())]; const unsigned c0 = called, b0 = begun;
    switch (e) {
      case 0: case 1: case 2: case 3: case 4: case 5: {
        mc::op("a job of %s, at priority %d", KINDS[e % 3].name, e / 3);
        if (!new_job(e % 3, e / 3)) mc::note("  none left");
        break;
      }
      case 6: {
        mc::op("owner A submits its own transaction");
        if (own.where == FREE) { fill(&own); own.kind = 0; own.refused = false; accepted(&own, bus->queue_io_job(own_op), 0); }
        else { const int r = bus->queue_io_job(own_op); MC_CHECK(r < 0, "submit-twice", "a transaction that is %s is accepted again: %d", where_s(own.where), r); }
        break;
      }
      case 7: mc::op("the job in progress completes"); hardware(current, true); break;
      case 8: mc::op("the job in progress fails"); hardware(current, false); break;
      case 9: {
        mc::op("poll");
        Job* done = current && current->hw == DONE ? current : nullptr; const bool idle = !current && queue_.empty(), may_start = !current && !queue_.empty(), retry = current && current->hw == NOT_YET;
        if (done) { current = nullptr; done->where = FINISHED; finished.push_back(done); }
        in_poll = true; const PollResult r = bus->poll(); in_poll = false;
        MC_CHECK(r != PollResult::ERROR, "poll", "poll() returns an error");
        if (idle) MC_CHECK(r == PollResult::NO_ACTION, "poll-idle", "poll() of an idle bus does something");
        if (may_start || retry) MC_CHECK(begun == b0 + 1, "poll-start", "poll() of a free bus with jobs starts %u", begun - b0);
        else if (!done) MC_CHECK(begun == b0, "poll-start", "poll() of a bus that is %s starts %u", idle ? "idle" : "busy", begun - b0);
        if (may_start && !bus->busIdle()) MC_CHECK(r == PollResult::REPOLL, "poll-result", "poll() took up a job, and does not want to be polled again");
        break;
      }
      case 10: {
        mc::op("callbacks"); const bool any = !finished.empty();
        const int r = bus->service_callback_queue();
        MC_CHECK((called - c0 >= 1) == any && called - c0 <= 1 && r == (int) (called - c0), "service", "servicing callbacks made %u and returned %d, with %s finished", called - c0, r, any ? "some" : "none");
        break;
      }
      case 11: {
        mc::op("purge the job in progress"); const bool any = current;
        purging = true; bus->purge_current_job(); purging = false;
        MC_CHECK(called - c0 == any, "purge-current", "purging the job in progress made %u callbacks", called - c0);
        break;
      }
      case 12: case 13: case 14: {
        unsigned n = 0;
        if (e == 12) { mc::op("purge the queue"); n = queue_.size(); purging = true; bus->purge_queued_work(); }
        else { mc::op("purge the jobs of %s", KINDS[e - 13].name); for (Job* j : queue_) n += j->kind == (unsigned) (e - 13); purging = true; const int r = bus->purge_queued_work_by_dev(&owner[e - 13]); MC_CHECK(r == (int) n, "purge-count", "%u jobs are purged, and %d claimed", n, r); }
        purging = false;
        MC_CHECK(called - c0 == n, "purge", "purging %u jobs made %u callbacks", n, called - c0);
        break;
      }
      default: {
        mc::op("printing");
        { StringBuilder out; bus->printAdapter(&out); bus->printWorkQueue(&out, 3); MC_CHECK(out.length() > 0, "print", "nothing printed"); }
        break;
      }
    }
    if (e < 9) MC_CHECK(called == c0 && begun == b0, "alone", "a callback was made, or a job started, by neither poll nor callbacks");
    same();
  }
  mc::op("everything runs to its end");
  draining = true;
  for (int i = 0; i < 40 && !bus->allQueuesClear(); i++) {
    if (!advancing && current && current->hw == IN_IO) hardware(current, true);
    if (current && current->hw == DONE) { Job* d = current; current = nullptr; d->where = FINISHED; finished.push_back(d); }
    in_poll = true; bus->poll(); in_poll = false; bus->service_callback_queue(); same();
  }
  MC_CHECK(bus->allQueuesClear() && !current && queue_.empty() && finished.empty(), "drain", "the bus does not come to rest");
  MC_CHECK(outstanding() == 0 && own.where == FREE, "drain", "a job was never called back");
  delete bus; delete own_op; plat::pin_hook = nullptr;
  if (own.buf) own.buf = nullptr;
  std::vector<S>().swap(plat::log);
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

/* A job's settings are independent of each other, until it is wiped. */
struct Rec : public BusOpCallback { unsigned calls = 0; int8_t io_op_callahead(BusOp*) override { return 0; } int8_t io_op_callback(BusOp*) override { calls++; return 0; } int8_t queue_io_job(BusOp*) override { return 0; } };
static void settings(unsigned n) {
  const int64_t base = mc::live_blocks();
  {
    Rec who; static const SPIFrameSize FS[] = { SPIFrameSize::BITS_8, SPIFrameSize::BITS_9, SPIFrameSize::BITS_16, SPIFrameSize::BITS_24, SPIFrameSize::BITS_32, SPIFrameSize::BITS_R2, SPIFrameSize::BITS_R1, SPIFrameSize::BITS_R0 };
    static const unsigned BITS[] = { 8, 9, 16, 24, 32 };
    unsigned np = 0, bits = 8, cs = 255, freq = 0, len = 0; uint8_t prm[8] = {}, *buf = nullptr; bool cpol = false, cpha = false, ah = false, keep = false, fb = false; BusOpcode oc = BusOpcode::UNDEF; uint8_t mem[4]; BusOpCallback* cb = nullptr;
    const unsigned made = mc::choose(4);
    SPIBusOp o = made == 0 ? SPIBusOp() : made == 1 ? SPIBusOp(BusOpcode::RX, &who) : SPIBusOp(BusOpcode::TX, &who, 7, made == 3);
    if (made) { oc = made == 1 ? BusOpcode::RX : BusOpcode::TX; cb = &who; } if (made > 1) cs = 7, ah = made == 3;
    for (unsigned d = 0; d <= n; d++) {
      MC_CHECK(o.transferParamLength() == np, "set:params", "there are %u parameters, not %u", o.transferParamLength(), np);
      for (unsigned i = 0; i < np; i++) MC_CHECK(o.getTransferParam(i) == prm[i], "set:param", "parameter %u of %u is %02x, not %02x", i, np, o.getTransferParam(i), prm[i]);
      MC_CHECK(o.bitsPerFrame() == bits, "set:frame", "frames are of %u bits, not %u", o.bitsPerFrame(), bits);
      MC_CHECK(o.cpol() == cpol && o.cpha() == cpha, "set:mode", "the clock mode is %d%d, not %d%d", o.cpol(), o.cpha(), cpol, cpha);
      MC_CHECK(o.getCSPin() == cs && o.csActiveHigh() == ah && !o.csAsserted(), "set:cs", "the chip select is %u%s, not %u%s", o.getCSPin(), o.csActiveHigh() ? " active high" : "", cs, ah ? " active high" : "");
      MC_CHECK(o.maxFreq() == freq, "set:freq", "the limit is %u Hz, not %u", o.maxFreq(), freq);
      MC_CHECK(o.buffer() == buf && o.bufferLen() == len, "set:buffer", "the buffer is another");
      MC_CHECK(o.get_opcode() == oc && o.callback == cb && o.hasCallback() == !!cb, "set:opcode", "the opcode or the owner is another");
      MC_CHECK(o.shouldReap() == !keep && o.shouldFreeBuffer() == fb, "set:reap", "it is %sto be reaped, its buffer %sto be freed", o.shouldReap() ? "" : "not ", o.shouldFreeBuffer() ? "" : "not ");
      MC_CHECK(o.isIdle() && !o.hasFault() && !o.isComplete() && !o.inProgress(), "set:state", "it is %s", o.getStateString());
      if (d == n) break;
      switch (mc::choose(9)) {
        case 0: { const unsigned k = 1 + mc::choose(8); const uint8_t b = 0x10 * (d + 1); mc::op("setParams() of %u", k); np = k; for (unsigned i = 0; i < 8; i++) prm[i] = i < k ? b + i : 0;
          switch (k) { case 1: o.setParams(b); break; case 2: o.setParams(b, b + 1); break; case 3: o.setParams(b, b + 1, b + 2); break; case 4: o.setParams(b, b + 1, b + 2, b + 3); break; case 5: o.setParams(b, b + 1, b + 2, b + 3, b + 4); break;
            case 6: o.setParams(b, b + 1, b + 2, b + 3, b + 4, b + 5); break; case 7: o.setParams(b, b + 1, b + 2, b + 3, b + 4, b + 5, b + 6); break; default: o.setParams(b, b + 1, b + 2, b + 3, b + 4, b + 5, b + 6, b + 7); } break; }
        case 1: { const unsigned k = mc::choose(8); const int r = o.bitsPerFrame(FS[k]); mc::op("bitsPerFrame(%u): %d", k, r); MC_CHECK(r == (k < 5 ? 0 : -1), "set:frame-answer", "frame size %u was answered %d", k, r); if (k < 5) bits = BITS[k]; break; }
        case 2: cpol = mc::flip(); o.cpol(cpol); mc::op("cpol(%d)", cpol); break;
        case 3: cpha = mc::flip(); o.cpha(cpha); mc::op("cpha(%d)", cpha); break;
        case 4: ah = mc::flip(); o.csActiveHigh(ah); mc::op("csActiveHigh(%d)", ah); break;
        case 5: { static const unsigned P[] = { 0, 200, 255 }; cs = P[mc::choose(3)]; o.setCSPin(cs); freq = cs * 20000000u / 255u; o.maxFreq(freq); mc::op("pin %u, %u Hz", cs, freq); break; }
        case 6: keep = mc::flip(); fb = mc::flip(); o.shouldReap(!keep); o.shouldFreeBuffer(fb); mc::op("keep %d, free the buffer %d", keep, fb); break;
        case 7: { static const unsigned L[] = { 0, 4, 300, 65535 }; len = L[mc::choose(4)]; buf = len ? mem : nullptr; o.setBuffer(buf, len); oc = len & 1 ? BusOpcode::RX : BusOpcode::TX_CMD; o.set_opcode(oc); mc::op("a buffer of %u", len); break; }
        case 8: o.wipe(); mc::op("wipe()"); np = 0; memset(prm, 0, 8); bits = 8; cpol = cpha = ah = false; cs = 255; freq = 0; buf = nullptr; len = 0; oc = BusOpcode::UNDEF; cb = nullptr; break;
      }
      mc::steps(1);
    }
    if (cb) { MC_CHECK(o.execCB() == 0 && who.calls == 1, "set:callback", "the callback was not made"); } else MC_CHECK(o.execCB() == 0 && o.execCA() == 0 && !who.calls, "set:callback", "a callback was made");
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

int main(int argc, char** argv) {
  const bool t = getenv("VERIF_TIER") && S(getenv("VERIF_TIER")) == "thorough";
  const unsigned n = t ? 7 : 6;
  std::vector<mc::Config> c;
  for (int g = 0; g < 2; g++) for (int a = 0; a < 2; a++)
    c.push_back(mc::Config(S(g ? "guarded" : "unguarded") + (a ? "-polled" : "-irq"), [=] { history(n, g, a); }, 2, "every history of " + std::to_string(n) + " events (submit, hardware outcome, poll, callback, purge), pool 1 + 2, queue 2"));
  c.push_back(mc::Config("settings", [=] { settings(t ? 5 : 4); }, 2, "every history of " + std::to_string(t ? 5 : 4) + " settings of a job and wipes of it, from each constructor"));
  return mc::main(argc, argv, "C37", c, {"the platform's begin() either starts the job, finds the bus busy, fails it, or completes it"});
}
