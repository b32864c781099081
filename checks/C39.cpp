/* C39: UART. Every history of writes, reads, hardware progress, forwarding, and comings and goings, against two lists of bytes. */
#include "../mc/mc.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include "BusQueue/UARTAdapter.h"
#include <deque>
typedef std::string S;

static unsigned tx_cap, rx_cap; static bool has_tx, has_rx, in_ok, out_ok; static unsigned inits, deinits; static int poll_says;
struct Uart : UARTAdapter {
  Uart() : UARTAdapter(2, 4, 5, 255, 255, (uint16_t) tx_cap, (uint16_t) rx_cap) {}
  ~Uart() {}
  bool conf_pending = false; UARTOpts seen;
  int8_t _pf_init() {
    inits++; conf_pending = _adapter_flag(UART_FLAG_PENDING_CONF); seen = _opts;
    if (!in_ok) return -1;
    _adapter_clear_flag(UART_FLAG_PENDING_CONF); _adapter_set_flag(UART_FLAG_HAS_TX, has_tx); _adapter_set_flag(UART_FLAG_HAS_RX, has_rx); _adapter_set_flag(UART_FLAG_UART_READY); return 0;
  }
  int8_t _pf_poll() { return poll_says; }
  int8_t _pf_deinit() { deinits++; return out_ok ? 0 : -1; }
  void irq_handler() {}
  // The hardware.
  S takes(unsigned n) { S r; while (n-- && _tx_buffer.count()) r += (char) _tx_buffer.get(); _flushed = !_tx_buffer.count(); return r; }
  unsigned gets(const S& s) { last_byte_rx_time = millis(); const int n = _rx_buffer.insert((uint8_t*) s.data(), s.size()); return n < 0 ? 0 : n; }
  int forward() { return _handle_rx_push(); }
};
struct Reader : BufferAccepter {
  int32_t avail = 0; unsigned take = 0; int8_t says = 0; unsigned pushes = 0; S got, offered;
  int8_t pushBuffer(StringBuilder* b) {
    pushes++; offered = S((const char*) b->string(), b->length());
    const unsigned n = std::min(take, (unsigned) b->length()); got.append(offered, 0, n); b->cull(n); return says;
  }
  int32_t bufferAvailable() { return avail; }
};
static Uart* u; static Reader rd; static std::string tx, rx; static uint8_t next_tx, next_rx; static unsigned tx_total, rx_total; static bool up, tx_on, rx_on, waiting_conf, flushed;
static UARTOpts opts;
static S bytes(uint8_t& from, unsigned n) { S r; while (n--) { r += (char) (from ? from : ++from); if (++from == 0) from = 1; } return r; }
static void same() {
  MC_CHECK(u->pendingTxBytes() == (int) tx.size(), "tx-count", "%zu bytes wait to be sent, not %d", tx.size(), u->pendingTxBytes());
  MC_CHECK(u->pendingRxBytes() == (int) rx.size(), "rx-count", "%zu bytes wait to be read, not %d", rx.size(), u->pendingRxBytes());
  MC_CHECK(u->bufferAvailable() == (int) (tx_cap - tx.size()), "tx-room", "%zu bytes are waiting in a ring of %u, and the room is said to be %d", tx.size(), tx_cap, u->bufferAvailable());
  MC_CHECK(u->initialized() == up && u->txCapable() == tx_on && u->rxCapable() == rx_on, "state", "initialized %d, tx %d, rx %d", u->initialized(), u->txCapable(), u->rxCapable());
}
static void fill(StringBuilder* b, const std::vector<S>& f) { for (const S& s : f) if (s.size()) b->concat((uint8_t*) s.data(), s.size()); }
static S rest(StringBuilder* b) { const int n = b->length(); return n ? S((const char*) b->string(), n) : S(); }
static const UARTOpts OPTS[] = {{115200, 1, 8, UARTStopBit::STOP_1, UARTParityBit::NONE, UARTFlowControl::NONE, 0x13, 0x11, 0}, {9600, 2, 7, UARTStopBit::STOP_2, UARTParityBit::ODD, UARTFlowControl::RTS_CTS, 1, 2, 3}};
static bool same_opts(const UARTOpts& a, const UARTOpts& b) {
  return a.bitrate == b.bitrate && a.start_bits == b.start_bits && a.bit_per_word == b.bit_per_word && a.stop_bits == b.stop_bits && a.parity == b.parity && a.flow_control == b.flow_control && a.xoff_char == b.xoff_char && a.xon_char == b.xon_char;
}
static bool ever;      // Whether a configuration was ever given.
static void init_now(bool ok, const UARTOpts* o) {
  in_ok = ok; const unsigned n = inits; const int r = u->init(o); if (o) { opts = *o; ever = true; }
  MC_CHECK((r == 0) == ok && inits == n + 1, "init", "init() returns %d, when the hardware says %d", r, ok);
  MC_CHECK(u->conf_pending, "init-conf", "the hardware comes up with no configuration pending");
  if (ever) MC_CHECK(same_opts(u->seen, opts) && same_opts(*u->uartOpts(), opts), "init-opts", "the hardware comes up with another configuration (%u bps)", u->seen.bitrate);
  up = ok; tx_on = ok && has_tx; rx_on = ok && has_rx;
  if (ever) MC_CHECK(u->bitrate() == opts.bitrate, "bitrate", "the bitrate is %u, not %u", u->bitrate(), opts.bitrate);
}
static S key() {
  char k[96]; snprintf(k, sizeof(k), "%u %u %u %u %d%d%d%d %u %d", (unsigned) tx.size(), (unsigned) rx.size(), tx_total % tx_cap, rx_total % rx_cap, up, tx_on, rx_on, ever, opts.bitrate, u->flushed()); return k;
}

static void history(unsigned depth, unsigned tc, unsigned rc, bool t, bool r) {
  tx_cap = tc; rx_cap = rc; has_tx = t; has_rx = r; plat::reset(); in_ok = out_ok = true; inits = deinits = 0; poll_says = 0;
  tx.clear(); rx.clear(); next_tx = 1; next_rx = 0x80; tx_total = rx_total = 0; up = tx_on = rx_on = ever = false; memset(&opts, 0, sizeof(opts)); rd = Reader(); rd.got.reserve(300); rd.offered.reserve(64); tx.reserve(64); rx.reserve(64);
  const int64_t base = mc::live_blocks();
  u = new Uart(); memset(u->uartOpts(), 0, sizeof(UARTOpts));
  MC_CHECK(!u->initialized() && u->flushed() && u->txdPin() == 4 && u->rxdPin() == 5 && u->ctsPin() == 255 && u->rtsPin() == 255, "new", "a new UART is not as it should be");
  init_now(true, &OPTS[0]); same();
  for (unsigned d = 0; d < depth; d++) {
    mc::state(key(), depth - d);
    const unsigned e = mc::choose(12);
    const size_t room = tx_on ? tx_cap - tx.size() : 0;
    switch (e) {
      case 0: case 1: {      // Buffers of one to three pieces.
        const unsigned np = 1 + mc::choose(3); std::vector<S> f; S all;
        for (unsigned i = 0; i < np; i++) { f.push_back(bytes(next_tx, np == 1 ? mc::choose(tx_cap + 2) : 1 + mc::choose(3))); all += f.back(); }
        const size_t took = std::min(room, all.size());
        mc::op("%s of %zu bytes in %u pieces, with room for %zu", e ? "a write" : "a push", all.size(), np, room);
        { StringBuilder b; fill(&b, f);
          if (e) { const uint32_t n = u->write(&b); MC_CHECK(n == took, "write", "%zu bytes were there to take, and %u are said to be taken", took, n); }
          else { const int ret = u->pushBuffer(&b); const int want = !took ? -1 : took < all.size() ? 0 : 1; MC_CHECK(ret == want, "push", "taking %zu of %zu bytes returns %d, not %d", took, all.size(), ret, want); }
          MC_CHECK(rest(&b) == all.substr(took), "push-rest", "after taking %zu of %zu bytes, what is left is %s, not %s", took, all.size(), mc::hex(rest(&b)).c_str(), mc::hex(all.substr(took)).c_str()); }
        tx += all.substr(0, took); tx_total += took; break;
      }
      case 2: {
        const unsigned n = mc::choose(tx_cap + 3); S all = bytes(next_tx, n); mc::op("a write of %u bytes, with room for %zu", n, room);
        const size_t took = std::min(room, all.size()); const uint32_t ret = mc::flip() ? u->write((uint8_t*) all.data(), n) : u->write(all.c_str());
        MC_CHECK(ret == took, "write", "%zu bytes were there to take, and %u are said to be taken", took, ret); tx += all.substr(0, took); tx_total += took; break;
      }
      case 3: {
        S all = bytes(next_tx, 1); mc::op("a write of a character, with room for %zu", room); const uint32_t ret = u->write(all[0]);
        MC_CHECK(ret == (room ? 1u : 0u), "write", "with room for %zu, writing a character returns %u", room, ret); if (room) { tx += all; tx_total++; } break;
      }
      case 4: {
        const unsigned n = 1 + mc::choose(tx_cap); mc::op("the hardware sends %u", n); const S s = u->takes(n), want = tx.substr(0, n);
        MC_CHECK(s == want, "sent", "the hardware sends %s, not %s", mc::hex(s).c_str(), mc::hex(want).c_str()); tx.erase(0, want.size()); break;
      }
      case 5: {
        if (!up) throw mc::Prune();
        const unsigned n = 1 + mc::choose(rx_cap); const S s = bytes(next_rx, n); mc::op("the hardware receives %u", n); plat::advance_ms(7);
        const size_t fit = std::min<size_t>(n, rx_cap - rx.size()); const unsigned ret = u->gets(s); MC_CHECK(ret == fit, "received", "%zu bytes fit, and %u were taken", fit, ret); rx += s.substr(0, fit); rx_total += fit;
        MC_CHECK(!u->rxTimeoutExpired(), "timeout", "the line is said to be quiet as a byte arrives");
        plat::advance_ms(50); MC_CHECK(!u->rxTimeoutExpired(), "timeout", "the line is said to be quiet after %u ms", u->rxTimeout()); plat::advance_ms(1); MC_CHECK(u->rxTimeoutExpired() && u->rxTimeout() == 50, "timeout", "the line is not said to be quiet after %u ms", u->rxTimeout() + 1);
        break;
      }
      case 6: {
        const unsigned n = mc::choose(rx_cap + 2); mc::op("a read of %u, with %zu waiting", n, rx.size()); uint8_t b[16]; memset(b, 0xEE, sizeof(b)); const uint32_t ret = u->read(b, n); const size_t want = std::min<size_t>(n, rx.size());
        MC_CHECK(ret == want, "read", "reading %u of %zu returns %u", n, rx.size(), ret); MC_CHECK(S((char*) b, want) == rx.substr(0, want), "read-data", "read %s, not %s", mc::hex(b, want).c_str(), mc::hex(rx.substr(0, want)).c_str());
        for (unsigned i = want; i < sizeof(b); i++) MC_CHECK(b[i] == 0xEE, "read-past", "a read of %zu writes at %u", want, i); rx.erase(0, want); break;
      }
      case 7: {
        mc::op("a read of all %zu", rx.size());
        { StringBuilder b; const bool some = mc::flip(); if (some) b.concat("x"); const uint32_t ret = u->read(&b); MC_CHECK(ret == rx.size(), "read", "reading all %zu returns %u", rx.size(), ret); const S want = (some ? "x" : "") + rx; MC_CHECK(rest(&b) == want, "read-data", "read %s, not %s", mc::hex(rest(&b)).c_str(), mc::hex(want).c_str()); }
        rx.clear(); break;
      }
      case 8: {
        static const int32_t AV[] = {-1, 0, 1, 2, 1000}; const bool there = mc::flip(); rd.pushes = 0; rd.got.clear();
        if (there) { rd.avail = AV[mc::choose(5)]; rd.take = mc::choose(rx_cap + 1); rd.says = rd.take ? (int8_t) mc::choose(2) : (int8_t) -1; }
        mc::op("forward, to %s with room for %d that takes %u", there ? "a reader" : "nobody", rd.avail, rd.take);
        u->readCallback(there ? &rd : nullptr); const int ret = u->forward();
        // An unknown capacity is no promise: what the reader leaves is kept.
        const size_t offer = !there || rx.empty() ? 0 : rd.avail < 0 ? rx.size() : std::min<size_t>(rd.avail, rx.size());
        const size_t took = std::min<size_t>(offer, rd.take);
        if (rd.avail >= 0 || !there) MC_CHECK(rd.pushes == (offer > 0), "forward-when", "%u pushes, with %zu bytes waiting and room for %d", rd.pushes, rx.size(), rd.avail);
        if (rd.pushes && rd.avail >= 0) { MC_CHECK(rd.offered == rx.substr(0, offer), "forward-what", "the reader with room for %d is offered %s of %s", rd.avail, mc::hex(rd.offered).c_str(), mc::hex(rx).c_str()); }
        const size_t really = rd.got.size(); MC_CHECK(rd.avail < 0 ? really <= took : really == took, "forward-count", "the reader got %zu, not %zu", really, took);
        MC_CHECK(rd.got == rx.substr(0, really), "forward-data", "the reader got %s of %s", mc::hex(rd.got).c_str(), mc::hex(rx).c_str());
        MC_CHECK(ret == (int) really, "forward-result", "the reader took %zu, and %d are said to be taken", really, ret);
        rx.erase(0, really); u->readCallback(nullptr); break;
      }
      case 9: {
        out_ok = mc::flip(); mc::op("deinit, and the hardware %s", out_ok ? "goes down" : "refuses"); const unsigned n = deinits; const int ret = u->deinit();
        MC_CHECK((ret == 0) == out_ok && deinits == n + 1, "deinit", "deinit() returns %d", ret);
        if (out_ok) { tx.clear(); rx.clear(); up = tx_on = rx_on = false; MC_CHECK(u->flushed() && u->bitrate() == 0, "deinit", "after deinit, %u bps", u->bitrate()); }
        break;
      }
      case 10: {
        const unsigned w = mc::choose(4);
        if (w < 2) { mc::op("init, at %u bps", OPTS[w].bitrate); init_now(true, &OPTS[w]); }
        else if (w == 2) { mc::op("init, and the hardware refuses"); init_now(false, &OPTS[0]); }
        else { mc::op("init again, as it was"); init_now(true, nullptr); }
        break;
      }
      default: {
        const unsigned w = mc::choose(5);
        if (w == 0) { mc::op("printing"); StringBuilder out; u->printDebug(&out); MC_CHECK(out.length() > 0, "print", "nothing printed"); }
        else if (w == 1) { mc::op("poll"); const int says[] = {0, 1, -1}; poll_says = says[mc::choose(3)]; const PollResult r2 = u->poll(); MC_CHECK(r2 == (poll_says == 0 ? PollResult::NO_ACTION : poll_says > 0 ? PollResult::ACTION : PollResult::ERROR), "poll", "poll() says %d of %d", (int) r2, poll_says); }
        else {
          out_ok = w != 3; in_ok = w != 4; mc::op("reset%s", w == 3 ? ", and the hardware does not go down" : w == 4 ? ", and the hardware does not come back" : "");
          const unsigned i0 = inits, d0 = deinits; const int ret = u->reset();
          MC_CHECK((ret == 0) == (w == 2), "reset", "reset() returns %d", ret); MC_CHECK(deinits == d0 + 1 && inits == i0 + (w != 3), "reset-steps", "reset() took the hardware down %u times, and up %u times", deinits - d0, inits - i0);
          if (w != 3) { tx.clear(); rx.clear(); up = in_ok; tx_on = up && has_tx; rx_on = up && has_rx; MC_CHECK(u->conf_pending && same_opts(u->seen, opts) && same_opts(*u->uartOpts(), opts), "reset-opts", "reset() comes back with another configuration");
            MC_CHECK(u->bitrate() == opts.bitrate, "bitrate", "reset() comes back at %u bps, not %u", u->bitrate(), opts.bitrate); }
        }
      }
    }
    same();
  }
  mc::op("all is sent, and read");
  const S s = u->takes(100); MC_CHECK(s == tx, "sent", "the hardware sends %s, not %s", mc::hex(s).c_str(), mc::hex(tx).c_str());
  { uint8_t b[32]; const uint32_t n = u->read(b, 32); MC_CHECK(S((char*) b, n) == rx, "read-data", "read %s, not %s", mc::hex(b, n).c_str(), mc::hex(rx).c_str()); }
  delete u;
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

int main(int argc, char** argv) {
  const bool t = getenv("VERIF_TIER") && S(getenv("VERIF_TIER")) == "thorough";
  const unsigned n = t ? 10 : 7;
  const S b = "every history of " + std::to_string(n) + " events";
  std::vector<mc::Config> c = {
    mc::Config("both", [=] { history(n, 4, 3, true, true); }, 2, b + ", rings of 4 and 3"),
    mc::Config("small", [=] { history(n, 1, 1, true, true); }, 2, b + ", rings of 1"),
    mc::Config("odd", [=] { history(n - 2, 7, 8, true, true); }, 2, b + " less two, rings of 7 and 8"),
    mc::Config("rx-only", [=] { history(n - 1, 3, 3, false, true); }, 2, b + " less one, no transmitter"),
    mc::Config("tx-only", [=] { history(n - 1, 3, 3, true, false); }, 2, b + " less one, no receiver"),
  };
  return mc::main(argc, argv, "C39", c, {"the platform fills the receive ring and empties the send ring from the same thread as its user"});
}
