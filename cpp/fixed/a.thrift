include "base.thrift"
namespace go apkg
/** doc */
enum Mode { OFF = 0, ON = 1, auto_mode = 7 }
typedef Mode MyMode
typedef list<i32> Ints
typedef base.Point Pt
struct All {
 1: bool b, 2: byte by, 3: i16 s, 4: i32 i, 5: i64 l, 6: double d, 7: string str, 8: binary bin,
 9: Mode mode, 10: MyMode mymode, 11: list<i32> li, 12: set<string> ss, 13: map<string,i64> m,
 14: list<Mode> lm, 15: set<Mode> sm, 16: map<Mode,string> mm, 17: list<binary> lb, 18: map<binary,binary> mb,
 20: base.Point pt, 21: Pt pt2, 22: base.Color col, 23: list<base.Point> lp, 24: map<i32,base.Point> mp,
 25: base.Stamp st, 26: base.Name nm, 27: Ints ints, 28: list<list<i32>> ll, 29: map<string,list<set<i16>>> deep,
 30: list<bool> lbo, 31: set<double> sd, 32: list<byte> lby,
 33: list<MyMode> lmm, 34: base.Bad exc, 35: list<base.Stamp> lst, 36: map<base.Color, list<base.Color>> mcc
}
struct Opt {
 1: optional bool b, 2: optional byte by, 3: optional i16 s, 4: optional i32 i, 5: optional i64 l, 6: optional double d, 7: optional string str, 8: optional binary bin,
 9: optional Mode mode, 10: optional MyMode mymode, 11: optional list<i32> li, 20: optional base.Point pt, 25: optional base.Stamp st, 26: optional base.Name nm
}
struct Req { 1: required bool b, 2: required i32 i, 3: required string s, 4: required binary bin, 5: required Mode m, 6: required base.Point p, 7: required list<i32> li }
struct Def {
 1: bool b = true, 2: byte by = 7, 3: i16 s = -300, 4: i32 i = 70000, 5: i64 l = 5000000000, 6: double d = 1.23456789012, 7: string str = "he said \"x\" \\ ok", 8: binary bin = "bin",
 9: Mode mode = Mode.ON, 10: MyMode mymode = Mode.OFF, 25: base.Stamp st = 99, 26: base.Name nm = "nm", 27: double whole = 3, 28: base.Color col = base.Color.BLUE
}
struct DefO {
 1: optional bool b = true, 2: optional byte by = 7, 3: optional i16 s = -300, 4: optional i32 i = 70000, 5: optional i64 l = 5000000000, 6: optional double d = 1.23456789012, 7: optional string str = "x", 8: optional binary bin = "bin",
 9: optional Mode mode = Mode.ON, 10: optional MyMode mymode = Mode.OFF, 25: optional base.Stamp st = 99, 26: optional base.Name nm = "nm",
}
struct DefC { 1: list<i32> li = [1,2,3], 2: map<string,i32> m = {"a":1}, 3: set<string> s = ["x"], 4: base.Point p = {"x": 9}, 5: list<list<i32>> ll = [[1],[2,3]],
 6: map<string,list<Mode>> ml = {"k": [Mode.ON]}, 7: list<base.Point> lp = [{"x":1},{"y":2}] }
struct Empty {}
struct Auto { string noid, i32 noid2 }
const bool CB = 1
const i32 CI = 42
const i64 CL = 5000000000
const double CD = 3.14159265358979
const string CS = "hello \"w\""
const Mode CM = Mode.ON
const list<i32> CLI = [1,2]
const map<string,i32> CMSI = {"a": 1, "b": 2}
const set<i32> CSI = [4,5]
const base.Point CP = {"x": 4, "y": 5}
const list<base.Point> CLP = [{"x":1}]
exception Oops { 1: string message, 2: Mode mode }
service Calc extends base.Parent {
 void nothing(),
 i32 add(1: i32 a, 2: i32 b),
 bool flag(1: bool f), byte by(1: byte v), i16 sh(1: i16 v), i64 lo(1: i64 v), double db(1: double v), string st(1: string v), binary bi(1: binary v),
 Mode en(1: Mode m), MyMode en2(1: MyMode m), list<i32> li(1: list<i32> v), set<string> se(1: set<string> v), map<string,i32> ma(1: map<string,i32> v),
 base.Point po(1: base.Point p) throws (1: Oops o, 2: base.Bad b),
 All al(1: All v) throws (1: Oops o),
 void thr(1: i32 n) throws (1: Oops o),
 oneway void shout(1: string s),
 list<base.Point> lpo(1: list<base.Point> v)
 base.Color co(1: base.Color c)
}
service Plain { void nop(), i32 get_thing(1: i32 some_id) }
