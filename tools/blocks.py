"""Self-contained blocks of source, each meant to make some rules speak; $$ is a two-digit suffix that keeps
the names of a file's blocks apart.  Used to see whether rules, files and functions influence each other (C22)
and as subjects for suppressions (C06)."""
HEADER2 = r"""#ifndef BLOCKS_H
#define BLOCKS_H
#ifdef __cplusplus
extern "C" {
#endif
int *ptr(void); char *text(void);
#ifdef __cplusplus
}
#endif
#ifdef __OBJC__
#define ENF(x) __attribute__((annotate("oclint:enforce[" x "]")))
typedef unsigned long NSUInteger;
#define YES ((BOOL)1)
#define NO ((BOOL)0)
@interface NSObject (Equality)
- (BOOL)isEqual:(id)o;
- (unsigned)hash;
@end
@interface NSNumber : NSObject
+ (NSNumber *)numberWithInt:(int)value;
+ (NSNumber *)numberWithBool:(BOOL)value;
@end
@interface NSString : NSObject
+ (NSString *)stringWithUTF8String:(const char *)s;
@end
@interface NSArray : NSObject
+ (id)array;
- (id)objectAtIndex:(NSUInteger)n;
@end
@interface NSDictionary : NSObject
+ (id)dictionary;
- (id)objectForKey:(id)k;
@end
#endif
#endif
"""
SUP = '__attribute__((annotate("oclint:suppress%s")))'
C = {}       # every language
CXX = {}     # C++ and Objective-C++
OBJC = {}    # Objective-C and Objective-C++

C["conds"] = r"""void conds$$(int a, int b)
{
    if (a & b) { f(); }
    if (a % 2 == 1) { g(!!a); }
    if (!a) { f(); } else { h(); }
    if (1) { f(); }
    use(a ? 1 : 1);
    use(!~-a);
    if (a) { if (b) { f(); } }
    if ((a == b)) { h(); }
    int k = (a == b);
    use(k);
}"""
C["jumbled"] = r"""void jumbled$$(int a)
{
    for (int m = 0; m < a; m++) { for (int n = 0; n < a; m++) { use(n); } }
}"""
CXX_BOOL = r"""bool redif$$(int a)
{
    if (a > 1) { return true; } else { return false; }
}"""
C["boolean"] = r"""int boolean$$(int a)
{
    if (a > 1) { return 1; } else { return 0; }
}
int constcond$$(int a)
{
    return 1 ? a : f();
}"""
C["empties"] = r"""void empties$$(int a)
{
    if (a) { }
    if (a) { f(); } else { }
    for (i = 0; i < a; i++) { }
    while (a) { }
    do { } while (a);
    switch (a) { }
}"""
C["switches"] = r"""void switches$$(int a)
{
    switch (a) { case 1: f(); case 2: f(); break; }
    switch (a) { default: f(); break; case 1: h(); break; case 2: break; case 3: f(); }
    switch (a) { case 1: f(); break; lab: f(); break; case 2: break; case 3: break; default: break; }
}
enum En$$ { EA$$, EB$$ };
void covered$$(enum En$$ e)
{
    switch (e) { case EA$$: f(); break; case EB$$: h(); break; default: break; }
}"""
C["plainswitch"] = r"""void plainswitch$$(int a)
{
    switch (a) { case 1: f(); break; case 2: h(); break; case 3: f(); break; default: break; }
}"""
C["jumps"] = r"""int jumps$$(int a)
{
    for (; a < 9;) { a = g(a); }
    for (i = 0; i < 9; i++) { for (j = 0; j < 9; i++) { f(); } }
    while (f()) { h(); break; }
    if (a) { goto out; f(); }
out:
    return a;
    f();
}"""
C["early"] = r"""void early$$(int a)
{
    f();
    if (a > 1)
    {
        f();
        h();
        f();
        h();
        f();
        h();
        f();
        h();
        f();
        h();
        f();
        h();
        f();
        h();
        f();
    }
}"""
C["longname"] = r"""int averyveryverylongvariablename$$;
int q;
void shortnames$$(int z)
{
    for (int n = 0; n < 9; n++) { use(z); }
    int y = 4;
    use(y);
}""".replace("int q;\n", "extern int q;\n")
C["longline"] = r"""void longline$$(void)
{
    use(1 + 2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + 10 + 11 + 12 + 13 + 14 + 15 + 16 + 17 + 18 + 19 + 20 + 21 + 22);
}"""
C["manyparams"] = "int manyparams$$(int p1x, int p2x, int p3x, int p4x, int p5x, int p6x, int p7x, int p8x, int p9x, int pax, int pbx);\nint manyparams$$(int p1x, int p2x, int p3x, int p4x, int p5x,\n    int p6x, int p7x, int p8x, int p9x, int pax, int pbx)\n{\n    return p1x + p2x + p3x + p4x;\n}"
C["complex"] = "void complex$$(int a)\n{\n" + "".join("    if (a == %d && g(a) || i) { f(); }\n" % k for k in range(11)) + "}"
C["ncss"] = "void ncss$$(void)\n{\n" + "".join("    use(%d);\n" % k for k in range(32)) + "}"
C["longmethod"] = "void longmethod$$(void)\n{\n" + "\n" * 60 + "}"
C["nested"] = "void nested$$(int a)\n{\n    if (a) { if (i) { if (j) { while (a) { if (f()) { for (;;) { h(); } } } } } f(); }\n}"
C["unused"] = r"""void unused$$(int a, int b, int used)
{
    int local, other = used;
    static int kept;
    use(other);
}"""
C["reassign"] = r"""int reassign$$(int a, int b)
{
    a = b;
    int result = a;
    return result;
}"""
C["nulls"] = r"""struct S$$ { int x; };
void nulls$$(struct S$$ *p)
{
    if (p == 0 && p->x == 1) { f(); }
    if (p->x == 2 && p != 0) { f(); }
    if (p != 0 && p->x) { f(); }
}"""
C["fields"] = "struct Fields$$ {\n" + "".join("    int field%02d;\n" % k for k in range(22)) + "};\nextern struct Fields$$ allfields$$;"
C["clean"] = r"""int clean$$(int first)
{
    if (first > 4)
    {
        return 3;
    }
    return first;
}"""
C["suppressed"] = r"""void suppressed$$(int a)
{
    int unusedlocal; //!OCLINT
    int alsounused;
    if (a) { } //!OCLINT
    if (a) { }
}
%s
void annotated$$(int a)
{
    int unusedlocal;
    while (a) { }
    use(1 + 2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + 10 + 11 + 12 + 13 + 14 + 15 + 16 + 17 + 18 + 19 + 20 + 21 + 22);
}
%s
void partly$$(int a)
{
    int unusedlocal;
    while (a) { }
}""" % (SUP % "", SUP % "[unused local variable]")
C["redundant"] = r"""int redundant$$(int a)
{
    if (a == 1)
    {
        return f();
    }
    else
    {
        h();
    }
    return a ? 1 : 0;
}"""
CXX["classes"] = r"""class Base$$ { public: int bee; virtual void mm(int a = 1); };
class Mid$$ : public Base$$ { };
class Leaf$$ : public Mid$$ { void mm(int a) override; };
class Priv$$ { static int counter; static void help(); };"""
CXX["catches"] = r"""void catches$$()
{
    try { } catch (int e1) { }
    try { f(); } catch (...) { }
}"""
CXX["lambdas"] = r"""void lambdas$$(int a)
{
    auto fn = [](int x) { if (x) { return 1; } else { return 0; } };
    use(fn(a));
    int list[2] = { a, 2 };
    for (auto &v : list) { }
}"""
CXX["dealloc"] = r"""void dealloc$$(int *p)
{
    if (p != 0) { delete p; }
    if (p) { delete p; p = 0; }
}"""
CXX["methods"] = "class Methods$$ {\npublic:\n" + "".join("    void method%02d();\n" % k for k in range(32)) + "};"
CXX["bigclass"] = "class Big$$ {\n" + "\n" * 1005 + "};"
CXX["ncode"] = r"""template <typename T> struct Tmpl$$ { T val; T get(T unusedp) { return val; } };
int usetmpl$$() { Tmpl$$<int> tt; tt.val = 3; return tt.get(1); }"""
CXX["throws"] = r"""int throws$$(int a)
{
    for (int k = 0; k < 3; k++) { if (a) { throw 1; } else { throw 2; } f(); }
    return a;
    f();
}"""
CXX["redif"] = CXX_BOOL
OBJC["nilbreaks"] = r"""void nilbreaks$$(NSArray *a)
{
    if (!a && [a value]) { f(); }
    if (a || [a value]) { f(); }
    if (a == 0 && [a value] == 1) { f(); }
}"""
OBJC["hash"] = r"""@interface Eq$$ : NSObject
@end
@implementation Eq$$
- (BOOL)isEqual:(id)o { return o == self; }
@end"""
OBJC["super"] = r"""@interface Sup$$ : NSObject
- (void)must ENF("base method");
- (void)wont ENF("prohibited method");
- (void)mine ENF("protected method");
@end
@interface Sub$$ : Sup$$
@end
@implementation Sub$$
- (void)must { [self wont]; }
- (void)other { [super must]; [self mine]; }
@end
void super$$(Sup$$ *s) { [s wont]; [s mine]; }
@interface Far$$ : NSObject
@end
@implementation Far$$
- (void)call:(Sup$$ *)s { [s mine]; [s wont]; }
@end"""
OBJC["abstract"] = r"""@interface Abs$$ : NSObject
- (void)todo ENF("abstract method");
@end
@interface Done$$ : Abs$$
@end
@implementation Done$$
@end
@interface Good$$ : Abs$$
@end
@implementation Good$$
- (void)todo { }
@end"""
OBJC["ivars"] = r"""@interface Ivars$$ : NSObject { int count; }
@property int total;
@end
@implementation Ivars$$
- (id)init { count = 1; return self; }
- (void)bump { count = 2; _total = 3; self.total = 4; }
- (int)total { return _total; }
@end"""
OBJC["finally"] = r"""int finally$$(int a)
{
    @try { } @catch (NSException *ex) { } @finally { }
    @try { f(); } @finally { if (a) { return 1; } @throw coll; }
    for (id it in coll) { }
    @synchronized (coll) { f(); }
    @autoreleasepool { int lost; }
    return a;
}"""
OBJC["literals"] = r"""void literals$$(NSArray *a, NSDictionary *d)
{
    use((int)[[NSNumber numberWithInt:42] value]);
    id n1 = [NSNumber numberWithInt:(43 - 1)];
    id s1 = [NSString stringWithUTF8String:text()];
    id a1 = [NSArray array];
    id i1 = [a objectAtIndex:0];
    id k1 = [d objectForKey:a1];
    if (a && [a value]) { f(); }
    if (a != 0 && [a value] || [d value] && d) { f(); }
}"""
OBJC["envy"] = r"""@interface Envied$$ : NSObject
- (void)work;
@end
@interface Envious$$ : NSObject
@end
@implementation Envious$$
- (void)toil { Envied$$ *ev = [Envied$$ alloc]; [ev work]; [ev work]; }
- (void)calm { [self toil]; }
@end"""
OBJC["blocks"] = r"""void blocks$$(int a)
{
    void (^blk)(int) = ^(int x) { if (a) { } };
    blk(1);
}"""
OBJC["manysel"] = "@interface Sel$$ : NSObject\n@end\n@implementation Sel$$\n" + "".join("- (void)sel%02d { }\n" % k for k in range(32)) + "@end"
EXT = {"c": ".c", "cpp": ".cpp", "m": ".m", "mm": ".mm"}


def blocks(lang):
    d = dict(C)
    if lang in ("cpp", "mm"):
        d.update(CXX)
    if lang in ("m", "mm"):
        d.update(OBJC)
    if lang in ("cpp", "mm"):
        d = {k: v.replace("struct S$$ *p", "S$$ *p") for k, v in d.items()}
        d.pop("jumps")       # C++ forbids some of its jumps
        d["switches"] = d["switches"].replace("break; lab: f(); break;", "break; lab: f(); break;")
    return d


def text(block, n):
    return block.replace("$$", "Z%02d" % n).split("\n")
