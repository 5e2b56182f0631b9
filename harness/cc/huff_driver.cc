// Builds the C++ Huffman coder and codes texts with it.  usage: driver < script > events
//   table FRESH f0 .. f256 | text EOF COUNT PRE POST c1 c2 ...
#include <cstdint>
#include <cmath>
#include <array>
#include <signal.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "header_freq_tables.h"
#include "huffman.h"
template <typename T> static std::string js(const T& v) {
  std::stringstream s;
  s << "[";
  for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << (unsigned long)v[i];
  s << "]";
  return s.str();
}
static std::vector<unsigned> bytes(BitBucket& bb) {
  return std::vector<unsigned>(bb.BytesBegin(), bb.BytesEnd());
}
static std::string head, tail;     // of the event in progress
static void died(int sig) {
  std::cout << head << ",\"exc\":\"" << (sig == SIGALRM ? "hangs" : "aborts") << "\"" << tail << "\n";
  std::cout.flush();
  _exit(7);
}
int main(int argc, char** argv) {
  signal(SIGABRT, died); signal(SIGSEGV, died); signal(SIGALRM, died);
  std::string variant = argv[1], line;
  Huffman* hf = new Huffman;
  while (std::getline(std::cin, line)) {
    std::stringstream in(line);
    std::string op;
    in >> op;
    alarm(30);
    if (op == "table") {
      int fresh; unsigned long x;
      in >> fresh;
      std::vector<unsigned long> f;
      while (in >> x) f.push_back(x);
      if (f.size() == 1)      // one of the tables of the code base
        for (unsigned i = 0; i < 257; ++i)
          f.push_back((f[0] ? FreqTables::request_freq_table : FreqTables::response_freq_table)[i].second);
      if (f.size() == 258) f.erase(f.begin());
      FreqTable ft;
      double sum = 0;
      for (unsigned i = 0; i < 257; ++i) { ft[i] = FreqEntry(i, f[i]); sum += f[i]; }
      head = "{\"ev\":\"new\",\"variant\":\"" + variant + "\"";
      tail = ",\"canon\":true,\"limit\":32,\"opt\":false,\"freqs\":[],\"codes\":[]}";
      if (fresh) { delete hf; hf = new Huffman; }
      hf->Init(ft);
      std::stringstream cs;
      size_t longest = 0;
      for (unsigned i = 0; i < 257; ++i) {
        BitBucket bb;
        hf->Encode(&bb, i == 256 ? std::string() : std::string(1, (char)i), i == 256);
        longest = std::max(longest, bb.NumBits());
        cs << (i ? "," : "") << "[" << bb.NumBits() << "," << js(bytes(bb)) << "]";
      }
      bool opt = sum * longest < (1 << 30) && longest < 32;
      if (!opt) f.assign(257, 0);
      std::cout << head << ",\"exc\":\"\",\"canon\":true,\"limit\":32,\"opt\":" << (opt ? "true" : "false") << ",\"freqs\":" << js(f)
                << ",\"codes\":[" << cs.str() << "]}\n";
      continue;
    }
    int eof, count, pre, post, x;
    in >> eof >> count >> pre >> post;
    std::string text;
    while (in >> x) text.push_back((char)x);
    std::vector<unsigned> ut;
    for (size_t i = 0; i < text.size(); ++i) ut.push_back((unsigned char)text[i]);
    std::stringstream h;
    h << "{\"ev\":\"text\",\"text\":" << js(ut) << ",\"eof\":" << (eof ? "true" : "false") << ",\"pre\":" << pre << ",\"post\":" << post
      << ",\"used\":-1";
    head = h.str();
    tail = ",\"bits\":-1,\"enc\":[],\"dec\":[],\"count\":0}";
    BitBucket alone, bb;
    hf->Encode(&alone, text, eof);
    std::vector<char> junk(32, (char)165);
    std::vector<char> a(junk.begin(), junk.begin() + (pre + 7) / 8), z(junk.begin(), junk.begin() + (post + 7) / 8);
    bb.StoreBits(a, pre);
    hf->Encode(&bb, text, eof);
    bb.StoreBits(z, post);
    bb.ConsumeBits(pre);
    int n = count >= 0 ? (int)alone.NumBits() + count : 0;
    std::string dec;
    hf->Decode(&dec, &bb, eof, n);
    std::vector<unsigned> ud;
    for (size_t i = 0; i < dec.size(); ++i) ud.push_back((unsigned char)dec[i]);
    std::cout << head << ",\"exc\":\"\",\"bits\":" << alone.NumBits() << ",\"enc\":" << js(bytes(alone)) << ",\"dec\":" << js(ud)
              << ",\"count\":" << n << "}\n";
  }
  std::cout.flush();
  return 0;
}
