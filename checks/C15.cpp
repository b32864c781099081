/* C15: typed pipes deliver each value whole, however the bytes between them are split. */
#include "cborval.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"

using val::S; using val::L;

enum { KINDS = 20 };
static uint8_t BLOB[] = {0xA1, 0x61, 0x61, 0x01, 0x00, 0xFF};     // what looks like a map, and is not
static const char* TEXT = "twenty-four characters, x";
/* Pushes value `kind`; `want` is what must arrive. */
static int push(C3PTypePipeSource& s, int kind, S& want) {
  Vector3f v(1.5f, -2.0f, 0.0f);
  switch (kind) {
    case 0: want = "i7"; return s.pushValue((uint8_t) 7);
    case 1: want = "i-200"; return s.pushValue((int16_t) -200);
    case 2: { want = "s616263"; C3PValue x("abc"); return s.pushValue(&x); }
    case 3: { want = "b" + mc::hex(S((char*) BLOB, sizeof(BLOB))); C3PValue x(BLOB, sizeof(BLOB)); return s.pushValue(&x); }
    case 4: { want = "'6b=i300;'6c=s76"; KeyValuePair x("k", (uint16_t) 300); x.append("v", "l"); return s.pushValue(&x); }
    case 5: want = "f3fc00000"; return s.pushValue(1.5f);
    case 6: want = "T"; return s.pushValue(true);
    case 7: { want = "v" + val::num((uint8_t) TCode::VECT_3_FLOAT) + ":0000c03f000000c000000000"; C3PValue x(&v); return s.pushValue(&x); }
    case 8: want = "i-1"; return s.pushValue((int8_t) -1);
    case 9: want = "i65536"; return s.pushValue((uint32_t) 65536);
    case 10: want = "i65535"; return s.pushValue((uint16_t) 65535);
    case 11: want = "i-70000"; return s.pushValue((int32_t) -70000);
    case 12: want = "i-4294967297"; return s.pushValue((int64_t) -4294967297LL);
    case 13: want = "i4294967296"; return s.pushValue((uint64_t) 4294967296ULL);
    case 14: want = "d3ff8000000000000"; return s.pushValue((double) 1.5);
    case 15: want = "F"; return s.pushValue(false);
    case 16: want = "s" + mc::hex(S(TEXT)); return s.pushValue(TEXT);
    case 17: { want = "s7a"; char t[2] = "z"; return s.pushValue((char*) t); }
    case 18: { want = "s"; C3PValue x(""); return s.pushValue(&x); }
    default: { want = "'6e={'71=T}"; KeyValuePair* n = new KeyValuePair("q", true); KeyValuePair x("n", n); x.reapValue(true); return s.pushValue((C3PValue*) &x); }
  }
}
static L GOT;
static void deliver(C3PValue* v) { GOT.push_back(val::show(v)); delete v; }

/* What a buffer holds, without joining its pieces. */
static S peek(StringBuilder& b) { S r((size_t) b.length(), 0); if (!r.empty()) b.copyToBuffer((uint8_t*) &r[0], b.length(), 0); return r; }

/* Values through a wire of limited room, then in pieces to the sink. */
static void journey(unsigned values, unsigned kinds, unsigned room, bool cuts, unsigned most) {
  { static bool primed = false; if (!primed) { primed = true; StringBuilderSink w(1000); C3PTypePipeSource s(TCode::CBOR, &w); S x; for (int k = 0; k < KINDS; k++) push(s, k, x); C3PTypePipeSink t(TCode::CBOR, 1000, deliver); t.pushBuffer(&w); } }
  GOT.clear(); GOT.shrink_to_fit();
  const int64_t base = quiet_blocks();
  {
    L sent; S stream; std::vector<size_t> ends;
    StringBuilderSink wire((int32_t) room);
    {
      C3PTypePipeSource src(TCode::CBOR, &wire);
      for (unsigned i = 0; i < values; i++) {
        const unsigned k = mc::choose(kinds); S want;
        const int before = wire.length(); const uint32_t bytes = src.byteCount();
        mc::op("pushing value %u with %d bytes in the wire", k, before);
        const int r = push(src, (int) k, want);
        const S now((char*) wire.string(), (size_t) wire.length());
        MC_CHECK(now.substr(0, stream.size()) == stream, "wire", "pushing a value altered what was pushed before");
        if (r == 0) {
          size_t at = stream.size(); L got;
          MC_CHECK(val::read(now, at, got) && at == now.size() && val::join(got) == want, "encoding", "value %s went out as %s", want.c_str(), mc::hex(now.substr(stream.size())).c_str());
          MC_CHECK(src.byteCount() - bytes == now.size() - stream.size(), "count", "%u bytes were counted of %zu", src.byteCount() - bytes, now.size() - stream.size());
          sent.push_back(want); stream = now; ends.push_back(now.size());
        }
        else {
          MC_CHECK(now == stream && src.byteCount() == bytes, "atomic", "a value that was refused (%d) left %zu bytes in the wire", r, now.size() - stream.size());
          StringBuilderSink ample(1000); C3PTypePipeSource other(TCode::CBOR, &ample); S w;
          MC_CHECK(push(other, (int) k, w) == 0, "refused", "value %s is refused by an empty wire", w.c_str());
          MC_CHECK(ample.length() > (int) room - before, "refused", "value %s of %d bytes was refused by a wire with %d to spare", w.c_str(), ample.length(), (int) room - before);
        }
      }
    }
    C3PTypePipeSink sink(TCode::CBOR, most, deliver);
    StringBuilder line; size_t in = 0, out = 0; size_t done = 0;
    while (in < stream.size()) {
      mc::state(stream + val::num(in) + "/" + val::num((unsigned) line.count()) + "/" + val::num(most), (uint32_t) (stream.size() - in));
      size_t n = stream.size() - in;
      if (cuts && n > 1) n = 1 + mc::choose((uint32_t) n);
      mc::op("%zu of %zu bytes arrive", n, stream.size());
      line.concat((uint8_t*) stream.data() + in, (int) n); in += n;
      const int before = line.length(); const uint32_t cnt = sink.byteCount();
      const int r = sink.pushBuffer(&line);
      const size_t took = (size_t) (before - line.length()); out += took;
      MC_CHECK(peek(line) == stream.substr(out, in - out), "rest", "what is left is not the bytes that follow those taken");
      // every value that has arrived whole, and fits, is delivered: no more, and no fewer
      size_t from = done ? ends[done - 1] : 0;
      while (done < ends.size() && ends[done] <= in && ends[done] - from <= most) from = ends[done++];
      MC_CHECK(GOT.size() == done, "delivery", "after %zu of %zu bytes, %zu values were delivered, not %zu", in, stream.size(), GOT.size(), done);
      for (size_t i = 0; i < done; i++) MC_CHECK(GOT[i] == sent[i], "value", "value %zu arrived as %s, not %s", i, GOT[i].c_str(), sent[i].c_str());
      MC_CHECK(out == from, "taken", "after %zu bytes, %zu were taken: the values delivered end at %zu", in, out, from);
      MC_CHECK(r == (line.isEmpty() ? 1 : took ? 0 : -1), "result", "taking %zu of %d bytes returned %d", took, before, r);
      MC_CHECK(sink.byteCount() - cnt == took, "count", "the sink counted %u bytes of %zu", sink.byteCount() - cnt, took);
      mc::steps(1);
    }
    GOT.clear(); GOT.shrink_to_fit();
  }
  MC_CHECK(quiet_blocks() == base, "leak", "%lld blocks were not released", (long long) (quiet_blocks() - base));
}
/* Source and sink joined directly. */
static void direct() {
  GOT.clear(); GOT.shrink_to_fit();
  C3PTypePipeSink sink(TCode::CBOR, 1 + mc::choose(64), deliver); C3PTypePipeSource src(TCode::CBOR, &sink);
  const unsigned a = mc::choose(KINDS), b = mc::choose(KINDS); L sent;
  for (unsigned k : {a, b}) { S w; if (push(src, (int) k, w) == 0) sent.push_back(w); }
  MC_CHECK(GOT == sent, "direct", "%zu values were accepted and %zu delivered", sent.size(), GOT.size());
  StringBuilderSink ample(1000); C3PTypePipeSource lone(TCode::CBOR, nullptr); S w;
  MC_CHECK(push(lone, (int) a, w) != 0, "nowhere", "a value was accepted with nowhere to go");
  MC_CHECK(lone.bufferAvailable() <= 0, "nowhere", "a source without a wire announces room");
}

int main(int argc, char** argv) {
  const bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.push_back({"fragments", [=]{ journey(th ? 4 : 3, 8, 1000, true, 1000); }, 2, "3 (4) values of 8 kinds, every division of their bytes into pieces"});
  c.push_back({"kinds", []{ const unsigned k = mc::choose(2); journey(k ? 2 : 1, KINDS, 1000, !k, 1000); }, 2, "every value of 20 kinds in every division, and every pair of them whole"});
  c.push_back({"room", [=]{ journey(th ? 4 : 3, 9, mc::choose(40), false, 1000); }, 2, "3 (4) values of 9 kinds into a wire of 0..39 bytes"});
  c.push_back({"limit", []{ journey(2, 9, 1000, false, 1 + mc::choose(40)); }, 2, "2 values of 9 kinds to a sink that looks at 1..40 bytes at once"});
  c.push_back({"direct", direct, 2, "every pair of 20 kinds of value straight from a source to a sink of 1..64 bytes"});
  return mc::main(argc, argv, "C15", c, {
    "the format between source and sink is CBOR", "the caller offers again what the sink left, followed by what arrived since", "a value longer than the sink's limit stays with the caller, and all that follows it"});
}
