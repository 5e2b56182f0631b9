// Plays operation histories on the C++ BitBucket.  usage: driver < script > events
#include <cstdint>
#include <cmath>
#include <array>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "bit_bucket.h"
typedef std::vector<int> Ints;
static std::string current;
static std::string js(const Ints& v) {
  std::stringstream s;
  s << "[";
  for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i];
  s << "]";
  return s.str();
}
static void say(const std::string& op, long n, const Ints& b, const Ints& got, const char* exc, bool refused,
                long num, long rem, bool done, long cap) {
  std::cout << "{\"ev\":\"" << op << "\",\"n\":" << n << ",\"b\":" << js(b) << ",\"got\":" << js(got) << ",\"exc\":\"" << exc
            << "\",\"refused\":" << (refused ? "true" : "false") << ",\"num\":" << num << ",\"rem\":" << rem
            << ",\"done\":" << (done ? "true" : "false") << ",\"cap\":" << cap << "}\n";
}
static std::string cur_op; static long cur_n; static Ints cur_b;
static void died(int) {   // abort() or a crash inside an operation
  say(cur_op, cur_n, cur_b, Ints(), "aborts", false, -1, -1, false, -1);
  std::cout.flush();
  _exit(7);
}
static uint32_t num(const Ints& b) {
  uint32_t r = 0;
  for (size_t i = 0; i < b.size(); ++i) r = r * 256 + b[i];
  return r;
}
static Ints four(uint32_t v) {
  Ints r;
  for (int s = 24; s >= 0; s -= 8) r.push_back((v >> s) & 255);
  return r;
}
int main() {
  signal(SIGABRT, died);
  signal(SIGSEGV, died);
  std::string line;
  BitBucket* bb = new BitBucket;
  while (std::getline(std::cin, line)) {
    std::stringstream in(line);
    std::string op; long n; Ints b; int x;
    in >> op >> n;
    while (in >> x) b.push_back(x);
    if (op == "new") {
      delete bb;
      bb = new BitBucket;
      std::cout << "{\"ev\":\"new\",\"variant\":\"" << (n ? "delta_bohe.cc" : "delta.cc") << "\"}\n";
      continue;
    }
    cur_op = op; cur_n = n; cur_b = b;
    std::vector<char> cb(b.begin(), b.end());
    std::string sb(b.begin(), b.end());
    Ints got;
    bool refused = false;
    if (op == "store") bb->StoreBits(cb, n);
    else if (op == "s1") bb->StoreBit(num(b));
    else if (op == "s8") bb->StoreBits8(num(b));
    else if (op == "s16") bb->StoreBits16(num(b));
    else if (op == "s32") bb->StoreBits32(num(b));
    else if (op == "bytes") bb->StoreBytes(sb.begin(), sb.end());
    else if (op == "abytes") bb->StoreByteAligned(cb);
    else if (op == "a8") bb->StoreByteAlignedUint8(num(b));
    else if (op == "a16") bb->StoreByteAlignedUint16(num(b));
    else if (op == "a32") bb->StoreByteAlignedUint32(num(b));
    else if (op == "get") {
      std::vector<char> r;
      bb->GetBits(&r, n);
      for (size_t i = 0; i < r.size(); ++i) got.push_back((unsigned char)r[i]);
    }
    else if (op == "g1") got = four(bb->GetBit());
    else if (op == "peek") {
      uint32_t w = num(b);
      bb->ShiftBitsIntoWord(&w, n);
      got = four(w);
    }
    else if (op == "consume") bb->ConsumeBits(n);
    else if (op == "seek") bb->Seek(n);
    else if (op == "clear") bb->Clear();
    else if (op == "all") {
      for (BitBucket::byte_iterator i = bb->BytesBegin(); i != bb->BytesEnd(); ++i) got.push_back(*i);
    }
    else if (op == "over") {
      std::cout.flush();
      pid_t p = fork();
      if (p == 0) {
        signal(SIGABRT, SIG_DFL);
        signal(SIGSEGV, SIG_DFL);
        if (!freopen("/dev/null", "w", stderr)) _exit(3);
        std::vector<char> r;
        try { bb->GetBits(&r, n); } catch (...) { _exit(1); }
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      refused = (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && WEXITSTATUS(st) == 1);
    }
    else { std::cerr << "unknown operation " << op << "\n"; return 9; }
    say(op, n, b, got, "", refused, bb->NumBits(), bb->BitsRemaining(), bb->AllConsumed(), bb->BytesRequired());
  }
  std::cout.flush();
  std::cerr << "DRIVER-DONE\n";
  return 0;
}
