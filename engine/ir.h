// LLVM textual IR -> compact in-memory form (only what rustc emits).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;
using std::string; using std::vector;

[[noreturn]] void die(const char *fmt, ...);

// A scalar: concrete (e==0) or symbolic. Symbolic i1 are Bool-sorted, other widths BV-sorted.
enum { F_UNDEF = 1, F_TAINT = 2 };
struct Val { u128 c; Z3_ast e; u8 fl; };

enum TK { T_VOID, T_INT, T_PTR, T_FLOAT, T_VEC, T_ARR, T_STRUCT, T_LABEL, T_META };
struct Type;
struct Leaf { u64 off; Type *t; };
struct Type {
  TK k; u32 w = 0; u64 n = 0; bool packed = false, defined = true;
  vector<Type *> el; u64 size = 0, align = 1; vector<u64> offs; bool laid = false;
  vector<Leaf> leaves; vector<u32> leafBase; // leaf index of each field/element
  bool leafed = false;
  void layout(); void flat();
  u32 nl() { flat(); return leaves.size(); }
};

struct Op { bool c; int i; };  // constant-pool index or register slot

enum IOp : u8 { I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_CALL, I_INVOKE,
  I_LPAD, I_RESUME, I_PHI, I_SELECT, I_ICMP, I_BIN, I_TRUNC, I_ZEXT, I_SEXT, I_BITCAST, I_MOVE, I_EXTRACTV,
  I_INSERTV, I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_CMPXCHG, I_RMW, I_FENCE, I_FREEZE, I_UNSUP };
enum Bin : u8 { B_ADD, B_SUB, B_MUL, B_UDIV, B_SDIV, B_UREM, B_SREM, B_SHL, B_LSHR, B_ASHR, B_AND, B_OR, B_XOR,
  B_XCHG, B_NAND, B_MAX, B_MIN, B_UMAX, B_UMIN };
enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Function;
struct CallInfo { Op callee; Function *direct = nullptr; vector<Op> args; vector<u32> argn; vector<u32> argAlign; vector<u32> argw; };
struct SwitchInfo { vector<u128> vals; vector<int> bbs; };
struct GepIdx { Op o; u32 w; u64 scale; };
struct PhiIn { Op o; int bb; };
struct Instr {
  IOp op; u8 sub = 0; bool inb = false, nuw = false, nsw = false; u32 w = 0, n = 1; Type *ty = nullptr; int dst = -1;
  Op a{true, 0}, b{true, 0}, c{true, 0}; int bb1 = -1, bb2 = -1; u32 align = 1; u64 imm = 0; u32 srcw = 0;
  CallInfo *ci = nullptr; SwitchInfo *sw = nullptr; vector<GepIdx> *gi = nullptr; vector<PhiIn> *ph = nullptr;
  vector<int> *mask = nullptr; string *txt = nullptr;
};
struct Block { string name; vector<Instr> ins; u32 nphi = 0; };
enum FKind { FK_NONE, FK_BODY, FK_ALLOC, FK_DEALLOC, FK_REALLOC, FK_ALLOCZ, FK_NOP, FK_PANIC, FK_ABORT, FK_UB, FK_BLOCK,
  FK_CATCH_CLEANUP, FK_ISZERO, FK_RANDKEYS, FK_SQRT, FK_MEMCMP, FK_BCMP, FK_V, FK_INTRIN, FK_UNKNOWN };
struct Function {
  string name; FKind kind = FK_NONE; int sub = 0; int id = 0; u64 addr = 0; Type *ret = nullptr;
  vector<int> pslot; vector<u32> pn; vector<Type *> ptypes; u32 nslots = 0; vector<Block> bb; bool hasBody = false; bool repo = false; string iname; u32 iw = 0;
};
struct Module;
struct Global { string name; u64 addr = 0; Type *ty = nullptr; bool ext = false, constant = false; u64 align = 1; u32 obj = 0; };
struct Sym { int k = 0; Function *f = nullptr; Global *g = nullptr; };

struct Program {
  std::unordered_map<string, Sym> ext;                 // external linkage
  vector<Function *> funcs; vector<Global *> globals; vector<Val> cpool;
  std::unordered_map<string, int> cIntern;
  void load(const vector<string> &files);
};
extern Program prog;
// memory layer callbacks used while loading
u64 newGlobalObj(u64 size, u64 align, bool constant, bool ext, u32 *objIdx);
u64 newFnObj(Function *f);
void initGlobalBytes(u32 obj, u64 off, const u8 *d, u64 n);
void initGlobalScalar(u32 obj, u64 off, const Val &v, u32 w);
void classify(Function *f);
bool libModelled(const string &name);
extern size_t libCount;
inline u32 bytesOf(u32 w) { return (w + 7) / 8; }
