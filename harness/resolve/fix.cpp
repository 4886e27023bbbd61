// A loadable object with functions whose call sites know their own line and function.
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(x) #x
#define STR(x) STR_(x)
struct fix_mark { const void* pc; int line; const char* func; int outer_line; const char* outer; };
namespace CAT(fix_, LIB) {
    static fix_mark table[32];
    static int count;
    int data = 42;
    const char text[] = "a constant in " STR(LIB);
    __attribute__((noinline, noipa)) static void note(int line, const char* func, int outer_line = 0, const char* outer = "") {
        fix_mark m = {static_cast<const char*>(__builtin_return_address(0)) - 1, line, func, outer_line, outer};
        table[count++] = m;
    }
    __attribute__((noinline, noipa)) int first(int x) {
        note(__LINE__, "first"); int y = x * 3;
        asm volatile("" : "+r"(y));
        note(__LINE__, "first");
        return y + data;
    }
    template<typename T> __attribute__((noinline, noipa)) T second(T x) {
        note(__LINE__, "second");
        return x + text[0];
    }
    struct thing {
        int value;
        __attribute__((noinline, noipa)) int operator()(int x) {

            note(__LINE__, "operator()");
            return x + value;
        }
    };
    static inline __attribute__((always_inline)) int inner(int x, int outer_line) {
        note(__LINE__, "inner", outer_line, "outer");
        asm volatile("" : "+r"(x));
        return x * 7;
    }
    __attribute__((noinline, noipa)) int outer(int x) {
        int r = inner(x, __LINE__);
        asm volatile("" : "+r"(r));
        note(__LINE__, "outer");
        return r + 1;
    }
    template int second<int>(int);
    template long second<long>(long);
}
extern "C" __attribute__((noinline, noipa, visibility("default"))) int CAT(fix_c_, LIB)(int x) {
    using namespace CAT(fix_, LIB);
    note(__LINE__, STR(CAT(fix_c_, LIB)));
    return x + 1;
}
extern "C" __attribute__((visibility("default"))) const fix_mark* CAT(fix_marks_, LIB)(int* n) {
    using namespace CAT(fix_, LIB);
    if(!count) {
        thing t{3};
        volatile int sink = first(1) + second(2) + (int) second(3L) + t(4) + outer(5) + CAT(fix_c_, LIB)(6);
        (void) sink;
    }
    *n = count;
    return table;
}
extern "C" __attribute__((visibility("default"))) const void* CAT(fix_data_, LIB)(int i) {
    using namespace CAT(fix_, LIB);
    return i == 0 ? static_cast<const void*>(&data) : static_cast<const void*>(text + 2);
}
