#!/bin/bash
# Builds the library from the current directory's src/ together with the demo.cpp beside this file, and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 99; trap 'rm -r "$W"' EXIT
F="-m32 -std=c++17 -O0 -g0 -w -fno-rtti -D_GNU_SOURCE -DCONFIG_C3P_CBOR -DCONFIG_C3P_M2M_SUPPORT -DCONFIG_C3P_IMG_SUPPORT -DCONFIG_C3P_TRACE_ENABLED -I$R/src"
cd "$W"
cat > platform.cpp <<'P'
#include "AbstractPlatform.h"
#include "StringBuilder.h"
uint32_t demo_us = 0, demo_ms = 0, demo_rnd = 1;
uint32_t randomUInt32() { return demo_rnd = demo_rnd * 1664525u + 1013904223u; }
int8_t random_fill(uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t) (randomUInt32() >> 24); return 0; }
long unsigned micros() { return demo_us; }
long unsigned millis() { return demo_ms; }
void sleep_ms(uint32_t ms) { demo_ms += ms; demo_us += ms * 1000; }
void sleep_us(uint32_t us) { demo_us += us; }
void c3p_log(uint8_t, const char*, StringBuilder*) {}
int8_t pinMode(uint8_t, GPIOMode) { return 0; }
int8_t setPin(uint8_t, bool) { return 0; }
int8_t readPin(uint8_t) { return 0; }
int8_t setPinFxn(uint8_t, IRQCondition, FxnPointer) { return 0; }
void unsetPinFxn(uint8_t) {}
int8_t analogWrite(uint8_t, float) { return 0; }
int8_t analogWriteFrequency(uint8_t, uint32_t) { return 0; }
P
{ find "$R/src" -name '*.cpp' | grep -v -e DataSharing -e MapFileParser -e GfxUI -e 'Identity/.*/' | grep -e '/src/[A-Za-z0-9]*\.cpp$' -e BusQueue -e Storage -e BufferAccepter -e TimerTools -e C3PValue -e Image -e TimeSeries -e Console -e cbor-cpp -e TripleAxisPipe -e M2MLink -e Identity
  echo "$W/platform.cpp"; echo "$D/demo.cpp"; } > list
n=0; while read -r f; do n=$((n+1)); printf '%s %s\n' "$n.o" "$f"; done < list | xargs -P 8 -L 1 sh -c 'g++ '"$F"' -fsingle-precision-constant -ffunction-sections -c -o "$0" "$1" 2>>err || echo "$1" >> failed'
g++ -m32 -Wl,--gc-sections -o demo *.o 2>>err || { grep -m3 error: err; tail -2 err; echo "the demo does not build"; exit 99; }
timeout 60 ./demo
