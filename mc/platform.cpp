/* The platform functions that CppPotpourri leaves to its user, under the explorer's control. */
#include "mc.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"

namespace plat {
  uint32_t now_us = 0;
  uint32_t now_ms = 0;
  uint32_t us_per_call = 0;
  static uint32_t sub_us = 0;
  static uint32_t rng_ctr = 0;
  std::vector<std::string> log;
  static uint32_t default_rng() {
    uint32_t x = (++rng_ctr) * 2654435761u;
    x ^= x >> 15; x *= 2246822519u; x ^= x >> 13;
    return x ? x : 1;
  }
  std::function<uint32_t()> rng = default_rng;
  void set_ms(uint32_t ms)   { now_ms = ms; now_us = ms * 1000u; sub_us = 0; }
  void advance_us(uint32_t us) {
    now_us += us;
    uint64_t t = (uint64_t) sub_us + us;
    now_ms += (uint32_t) (t / 1000);
    sub_us = (uint32_t) (t % 1000);
  }
  void advance_ms(uint32_t ms) { now_ms += ms; now_us += ms * 1000u; }
  void reset() { now_us = 0; now_ms = 0; us_per_call = 0; sub_us = 0; rng_ctr = 0; log.clear(); rng = default_rng; }
}

uint32_t randomUInt32() { return plat::rng(); }
int8_t random_fill(uint8_t* buf, size_t len) {
  for (size_t i = 0; i < len; i++) buf[i] = (uint8_t) plat::rng();
  return 0;
}
long unsigned micros() {
  uint32_t r = plat::now_us;
  if (plat::us_per_call) plat::advance_us(plat::us_per_call);
  return r;
}
long unsigned millis() { return plat::now_ms; }
void sleep_ms(uint32_t ms) { plat::advance_ms(ms); }
void sleep_us(uint32_t us) { plat::advance_us(us); }
void c3p_log(uint8_t, const char* tag, StringBuilder* msg) {
  if (plat::log.size() < 64) plat::log.push_back(std::string(tag ? tag : "") + ": " + std::string((const char*) msg->string(), (size_t) msg->length()));
}
/* GPIO etc. */
int8_t pinMode(uint8_t, GPIOMode) { return 0; }
void (*plat::pin_hook)(uint8_t, bool) = nullptr;
int8_t setPin(uint8_t pin, bool level) { if (plat::pin_hook) plat::pin_hook(pin, level); return 0; }
int8_t readPin(uint8_t) { return 0; }
int8_t setPinFxn(uint8_t, IRQCondition, FxnPointer) { return 0; }
void   unsetPinFxn(uint8_t) {}
int8_t analogWrite(uint8_t, float) { return 0; }
int8_t analogWriteFrequency(uint8_t, uint32_t) { return 0; }
