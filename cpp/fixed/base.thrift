namespace go basepkg
enum Color { RED, GREEN = 5, BLUE }
typedef i64 Stamp
typedef string Name
struct Point { 1: i32 x = 3, 2: i32 y }
exception Bad { 1: string why, 2: i32 code }
const i32 LIMIT = 12
service Parent { string ping(1: string who) throws (1: Bad bad), oneway void fire(1: i32 n) }
