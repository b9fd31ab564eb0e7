// Scalar builtins of OpenCL C that kernels may call, under the names clang
// gives them. Written by tools/builtins.py; included by mockcl.cpp.
template<class R, class T> static R saturate(T v)
{
    if (v != v) return 0;
    const long double x = v, lo = std::numeric_limits<R>::lowest(),
                      hi = std::numeric_limits<R>::max();
    return x < lo ? std::numeric_limits<R>::lowest()
                  : x > hi ? std::numeric_limits<R>::max() : (R)v;
}
template<class T> static T high(T a, T b)
{
    return (T)(((__int128)a * (__int128)b) >> (sizeof(T) * 8));
}
template<class T> static int zeros(T v)
{
    int n = 0;
    for (int i = sizeof(T) * 8; i-- > 0 && !((unsigned long)v >> i & 1);) ++n;
    return n;
}
extern "C" {
signed char _Z12convert_charc(signed char a) { return (signed char)a; }
signed char _Z16convert_char_rtec(signed char a) { return (signed char)a; }
signed char _Z16convert_char_rtzc(signed char a) { return (signed char)a; }
signed char _Z16convert_char_satc(signed char a) { return saturate<signed char>(a); }
signed char _Z12convert_charh(unsigned char a) { return (signed char)a; }
signed char _Z16convert_char_rteh(unsigned char a) { return (signed char)a; }
signed char _Z16convert_char_rtzh(unsigned char a) { return (signed char)a; }
signed char _Z16convert_char_sath(unsigned char a) { return saturate<signed char>(a); }
signed char _Z12convert_chars(short a) { return (signed char)a; }
signed char _Z16convert_char_rtes(short a) { return (signed char)a; }
signed char _Z16convert_char_rtzs(short a) { return (signed char)a; }
signed char _Z16convert_char_sats(short a) { return saturate<signed char>(a); }
signed char _Z12convert_chart(unsigned short a) { return (signed char)a; }
signed char _Z16convert_char_rtet(unsigned short a) { return (signed char)a; }
signed char _Z16convert_char_rtzt(unsigned short a) { return (signed char)a; }
signed char _Z16convert_char_satt(unsigned short a) { return saturate<signed char>(a); }
signed char _Z12convert_chari(int a) { return (signed char)a; }
signed char _Z16convert_char_rtei(int a) { return (signed char)a; }
signed char _Z16convert_char_rtzi(int a) { return (signed char)a; }
signed char _Z16convert_char_sati(int a) { return saturate<signed char>(a); }
signed char _Z12convert_charj(unsigned a) { return (signed char)a; }
signed char _Z16convert_char_rtej(unsigned a) { return (signed char)a; }
signed char _Z16convert_char_rtzj(unsigned a) { return (signed char)a; }
signed char _Z16convert_char_satj(unsigned a) { return saturate<signed char>(a); }
signed char _Z12convert_charl(long a) { return (signed char)a; }
signed char _Z16convert_char_rtel(long a) { return (signed char)a; }
signed char _Z16convert_char_rtzl(long a) { return (signed char)a; }
signed char _Z16convert_char_satl(long a) { return saturate<signed char>(a); }
signed char _Z12convert_charm(unsigned long a) { return (signed char)a; }
signed char _Z16convert_char_rtem(unsigned long a) { return (signed char)a; }
signed char _Z16convert_char_rtzm(unsigned long a) { return (signed char)a; }
signed char _Z16convert_char_satm(unsigned long a) { return saturate<signed char>(a); }
signed char _Z12convert_charf(float a) { return (signed char)a; }
signed char _Z16convert_char_rtef(float a) { return (signed char)rint(a); }
signed char _Z16convert_char_rtzf(float a) { return (signed char)trunc(a); }
signed char _Z16convert_char_satf(float a) { return saturate<signed char>(a); }
signed char _Z12convert_chard(double a) { return (signed char)a; }
signed char _Z16convert_char_rted(double a) { return (signed char)rint(a); }
signed char _Z16convert_char_rtzd(double a) { return (signed char)trunc(a); }
signed char _Z16convert_char_satd(double a) { return saturate<signed char>(a); }
unsigned char _Z13convert_ucharc(signed char a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtec(signed char a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtzc(signed char a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_satc(signed char a) { return saturate<unsigned char>(a); }
unsigned char _Z13convert_ucharh(unsigned char a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rteh(unsigned char a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtzh(unsigned char a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_sath(unsigned char a) { return saturate<unsigned char>(a); }
unsigned char _Z13convert_uchars(short a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtes(short a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtzs(short a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_sats(short a) { return saturate<unsigned char>(a); }
unsigned char _Z13convert_uchart(unsigned short a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtet(unsigned short a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtzt(unsigned short a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_satt(unsigned short a) { return saturate<unsigned char>(a); }
unsigned char _Z13convert_uchari(int a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtei(int a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtzi(int a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_sati(int a) { return saturate<unsigned char>(a); }
unsigned char _Z13convert_ucharj(unsigned a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtej(unsigned a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtzj(unsigned a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_satj(unsigned a) { return saturate<unsigned char>(a); }
unsigned char _Z13convert_ucharl(long a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtel(long a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtzl(long a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_satl(long a) { return saturate<unsigned char>(a); }
unsigned char _Z13convert_ucharm(unsigned long a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtem(unsigned long a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtzm(unsigned long a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_satm(unsigned long a) { return saturate<unsigned char>(a); }
unsigned char _Z13convert_ucharf(float a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rtef(float a) { return (unsigned char)rint(a); }
unsigned char _Z17convert_uchar_rtzf(float a) { return (unsigned char)trunc(a); }
unsigned char _Z17convert_uchar_satf(float a) { return saturate<unsigned char>(a); }
unsigned char _Z13convert_uchard(double a) { return (unsigned char)a; }
unsigned char _Z17convert_uchar_rted(double a) { return (unsigned char)rint(a); }
unsigned char _Z17convert_uchar_rtzd(double a) { return (unsigned char)trunc(a); }
unsigned char _Z17convert_uchar_satd(double a) { return saturate<unsigned char>(a); }
short _Z13convert_shortc(signed char a) { return (short)a; }
short _Z17convert_short_rtec(signed char a) { return (short)a; }
short _Z17convert_short_rtzc(signed char a) { return (short)a; }
short _Z17convert_short_satc(signed char a) { return saturate<short>(a); }
short _Z13convert_shorth(unsigned char a) { return (short)a; }
short _Z17convert_short_rteh(unsigned char a) { return (short)a; }
short _Z17convert_short_rtzh(unsigned char a) { return (short)a; }
short _Z17convert_short_sath(unsigned char a) { return saturate<short>(a); }
short _Z13convert_shorts(short a) { return (short)a; }
short _Z17convert_short_rtes(short a) { return (short)a; }
short _Z17convert_short_rtzs(short a) { return (short)a; }
short _Z17convert_short_sats(short a) { return saturate<short>(a); }
short _Z13convert_shortt(unsigned short a) { return (short)a; }
short _Z17convert_short_rtet(unsigned short a) { return (short)a; }
short _Z17convert_short_rtzt(unsigned short a) { return (short)a; }
short _Z17convert_short_satt(unsigned short a) { return saturate<short>(a); }
short _Z13convert_shorti(int a) { return (short)a; }
short _Z17convert_short_rtei(int a) { return (short)a; }
short _Z17convert_short_rtzi(int a) { return (short)a; }
short _Z17convert_short_sati(int a) { return saturate<short>(a); }
short _Z13convert_shortj(unsigned a) { return (short)a; }
short _Z17convert_short_rtej(unsigned a) { return (short)a; }
short _Z17convert_short_rtzj(unsigned a) { return (short)a; }
short _Z17convert_short_satj(unsigned a) { return saturate<short>(a); }
short _Z13convert_shortl(long a) { return (short)a; }
short _Z17convert_short_rtel(long a) { return (short)a; }
short _Z17convert_short_rtzl(long a) { return (short)a; }
short _Z17convert_short_satl(long a) { return saturate<short>(a); }
short _Z13convert_shortm(unsigned long a) { return (short)a; }
short _Z17convert_short_rtem(unsigned long a) { return (short)a; }
short _Z17convert_short_rtzm(unsigned long a) { return (short)a; }
short _Z17convert_short_satm(unsigned long a) { return saturate<short>(a); }
short _Z13convert_shortf(float a) { return (short)a; }
short _Z17convert_short_rtef(float a) { return (short)rint(a); }
short _Z17convert_short_rtzf(float a) { return (short)trunc(a); }
short _Z17convert_short_satf(float a) { return saturate<short>(a); }
short _Z13convert_shortd(double a) { return (short)a; }
short _Z17convert_short_rted(double a) { return (short)rint(a); }
short _Z17convert_short_rtzd(double a) { return (short)trunc(a); }
short _Z17convert_short_satd(double a) { return saturate<short>(a); }
unsigned short _Z14convert_ushortc(signed char a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtec(signed char a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtzc(signed char a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_satc(signed char a) { return saturate<unsigned short>(a); }
unsigned short _Z14convert_ushorth(unsigned char a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rteh(unsigned char a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtzh(unsigned char a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_sath(unsigned char a) { return saturate<unsigned short>(a); }
unsigned short _Z14convert_ushorts(short a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtes(short a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtzs(short a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_sats(short a) { return saturate<unsigned short>(a); }
unsigned short _Z14convert_ushortt(unsigned short a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtet(unsigned short a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtzt(unsigned short a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_satt(unsigned short a) { return saturate<unsigned short>(a); }
unsigned short _Z14convert_ushorti(int a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtei(int a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtzi(int a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_sati(int a) { return saturate<unsigned short>(a); }
unsigned short _Z14convert_ushortj(unsigned a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtej(unsigned a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtzj(unsigned a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_satj(unsigned a) { return saturate<unsigned short>(a); }
unsigned short _Z14convert_ushortl(long a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtel(long a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtzl(long a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_satl(long a) { return saturate<unsigned short>(a); }
unsigned short _Z14convert_ushortm(unsigned long a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtem(unsigned long a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtzm(unsigned long a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_satm(unsigned long a) { return saturate<unsigned short>(a); }
unsigned short _Z14convert_ushortf(float a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rtef(float a) { return (unsigned short)rint(a); }
unsigned short _Z18convert_ushort_rtzf(float a) { return (unsigned short)trunc(a); }
unsigned short _Z18convert_ushort_satf(float a) { return saturate<unsigned short>(a); }
unsigned short _Z14convert_ushortd(double a) { return (unsigned short)a; }
unsigned short _Z18convert_ushort_rted(double a) { return (unsigned short)rint(a); }
unsigned short _Z18convert_ushort_rtzd(double a) { return (unsigned short)trunc(a); }
unsigned short _Z18convert_ushort_satd(double a) { return saturate<unsigned short>(a); }
int _Z11convert_intc(signed char a) { return (int)a; }
int _Z15convert_int_rtec(signed char a) { return (int)a; }
int _Z15convert_int_rtzc(signed char a) { return (int)a; }
int _Z15convert_int_satc(signed char a) { return saturate<int>(a); }
int _Z11convert_inth(unsigned char a) { return (int)a; }
int _Z15convert_int_rteh(unsigned char a) { return (int)a; }
int _Z15convert_int_rtzh(unsigned char a) { return (int)a; }
int _Z15convert_int_sath(unsigned char a) { return saturate<int>(a); }
int _Z11convert_ints(short a) { return (int)a; }
int _Z15convert_int_rtes(short a) { return (int)a; }
int _Z15convert_int_rtzs(short a) { return (int)a; }
int _Z15convert_int_sats(short a) { return saturate<int>(a); }
int _Z11convert_intt(unsigned short a) { return (int)a; }
int _Z15convert_int_rtet(unsigned short a) { return (int)a; }
int _Z15convert_int_rtzt(unsigned short a) { return (int)a; }
int _Z15convert_int_satt(unsigned short a) { return saturate<int>(a); }
int _Z11convert_inti(int a) { return (int)a; }
int _Z15convert_int_rtei(int a) { return (int)a; }
int _Z15convert_int_rtzi(int a) { return (int)a; }
int _Z15convert_int_sati(int a) { return saturate<int>(a); }
int _Z11convert_intj(unsigned a) { return (int)a; }
int _Z15convert_int_rtej(unsigned a) { return (int)a; }
int _Z15convert_int_rtzj(unsigned a) { return (int)a; }
int _Z15convert_int_satj(unsigned a) { return saturate<int>(a); }
int _Z11convert_intl(long a) { return (int)a; }
int _Z15convert_int_rtel(long a) { return (int)a; }
int _Z15convert_int_rtzl(long a) { return (int)a; }
int _Z15convert_int_satl(long a) { return saturate<int>(a); }
int _Z11convert_intm(unsigned long a) { return (int)a; }
int _Z15convert_int_rtem(unsigned long a) { return (int)a; }
int _Z15convert_int_rtzm(unsigned long a) { return (int)a; }
int _Z15convert_int_satm(unsigned long a) { return saturate<int>(a); }
int _Z11convert_intf(float a) { return (int)a; }
int _Z15convert_int_rtef(float a) { return (int)rint(a); }
int _Z15convert_int_rtzf(float a) { return (int)trunc(a); }
int _Z15convert_int_satf(float a) { return saturate<int>(a); }
int _Z11convert_intd(double a) { return (int)a; }
int _Z15convert_int_rted(double a) { return (int)rint(a); }
int _Z15convert_int_rtzd(double a) { return (int)trunc(a); }
int _Z15convert_int_satd(double a) { return saturate<int>(a); }
unsigned _Z12convert_uintc(signed char a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtec(signed char a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtzc(signed char a) { return (unsigned)a; }
unsigned _Z16convert_uint_satc(signed char a) { return saturate<unsigned>(a); }
unsigned _Z12convert_uinth(unsigned char a) { return (unsigned)a; }
unsigned _Z16convert_uint_rteh(unsigned char a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtzh(unsigned char a) { return (unsigned)a; }
unsigned _Z16convert_uint_sath(unsigned char a) { return saturate<unsigned>(a); }
unsigned _Z12convert_uints(short a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtes(short a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtzs(short a) { return (unsigned)a; }
unsigned _Z16convert_uint_sats(short a) { return saturate<unsigned>(a); }
unsigned _Z12convert_uintt(unsigned short a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtet(unsigned short a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtzt(unsigned short a) { return (unsigned)a; }
unsigned _Z16convert_uint_satt(unsigned short a) { return saturate<unsigned>(a); }
unsigned _Z12convert_uinti(int a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtei(int a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtzi(int a) { return (unsigned)a; }
unsigned _Z16convert_uint_sati(int a) { return saturate<unsigned>(a); }
unsigned _Z12convert_uintj(unsigned a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtej(unsigned a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtzj(unsigned a) { return (unsigned)a; }
unsigned _Z16convert_uint_satj(unsigned a) { return saturate<unsigned>(a); }
unsigned _Z12convert_uintl(long a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtel(long a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtzl(long a) { return (unsigned)a; }
unsigned _Z16convert_uint_satl(long a) { return saturate<unsigned>(a); }
unsigned _Z12convert_uintm(unsigned long a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtem(unsigned long a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtzm(unsigned long a) { return (unsigned)a; }
unsigned _Z16convert_uint_satm(unsigned long a) { return saturate<unsigned>(a); }
unsigned _Z12convert_uintf(float a) { return (unsigned)a; }
unsigned _Z16convert_uint_rtef(float a) { return (unsigned)rint(a); }
unsigned _Z16convert_uint_rtzf(float a) { return (unsigned)trunc(a); }
unsigned _Z16convert_uint_satf(float a) { return saturate<unsigned>(a); }
unsigned _Z12convert_uintd(double a) { return (unsigned)a; }
unsigned _Z16convert_uint_rted(double a) { return (unsigned)rint(a); }
unsigned _Z16convert_uint_rtzd(double a) { return (unsigned)trunc(a); }
unsigned _Z16convert_uint_satd(double a) { return saturate<unsigned>(a); }
long _Z12convert_longc(signed char a) { return (long)a; }
long _Z16convert_long_rtec(signed char a) { return (long)a; }
long _Z16convert_long_rtzc(signed char a) { return (long)a; }
long _Z16convert_long_satc(signed char a) { return saturate<long>(a); }
long _Z12convert_longh(unsigned char a) { return (long)a; }
long _Z16convert_long_rteh(unsigned char a) { return (long)a; }
long _Z16convert_long_rtzh(unsigned char a) { return (long)a; }
long _Z16convert_long_sath(unsigned char a) { return saturate<long>(a); }
long _Z12convert_longs(short a) { return (long)a; }
long _Z16convert_long_rtes(short a) { return (long)a; }
long _Z16convert_long_rtzs(short a) { return (long)a; }
long _Z16convert_long_sats(short a) { return saturate<long>(a); }
long _Z12convert_longt(unsigned short a) { return (long)a; }
long _Z16convert_long_rtet(unsigned short a) { return (long)a; }
long _Z16convert_long_rtzt(unsigned short a) { return (long)a; }
long _Z16convert_long_satt(unsigned short a) { return saturate<long>(a); }
long _Z12convert_longi(int a) { return (long)a; }
long _Z16convert_long_rtei(int a) { return (long)a; }
long _Z16convert_long_rtzi(int a) { return (long)a; }
long _Z16convert_long_sati(int a) { return saturate<long>(a); }
long _Z12convert_longj(unsigned a) { return (long)a; }
long _Z16convert_long_rtej(unsigned a) { return (long)a; }
long _Z16convert_long_rtzj(unsigned a) { return (long)a; }
long _Z16convert_long_satj(unsigned a) { return saturate<long>(a); }
long _Z12convert_longl(long a) { return (long)a; }
long _Z16convert_long_rtel(long a) { return (long)a; }
long _Z16convert_long_rtzl(long a) { return (long)a; }
long _Z16convert_long_satl(long a) { return saturate<long>(a); }
long _Z12convert_longm(unsigned long a) { return (long)a; }
long _Z16convert_long_rtem(unsigned long a) { return (long)a; }
long _Z16convert_long_rtzm(unsigned long a) { return (long)a; }
long _Z16convert_long_satm(unsigned long a) { return saturate<long>(a); }
long _Z12convert_longf(float a) { return (long)a; }
long _Z16convert_long_rtef(float a) { return (long)rint(a); }
long _Z16convert_long_rtzf(float a) { return (long)trunc(a); }
long _Z16convert_long_satf(float a) { return saturate<long>(a); }
long _Z12convert_longd(double a) { return (long)a; }
long _Z16convert_long_rted(double a) { return (long)rint(a); }
long _Z16convert_long_rtzd(double a) { return (long)trunc(a); }
long _Z16convert_long_satd(double a) { return saturate<long>(a); }
unsigned long _Z13convert_ulongc(signed char a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtec(signed char a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtzc(signed char a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_satc(signed char a) { return saturate<unsigned long>(a); }
unsigned long _Z13convert_ulongh(unsigned char a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rteh(unsigned char a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtzh(unsigned char a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_sath(unsigned char a) { return saturate<unsigned long>(a); }
unsigned long _Z13convert_ulongs(short a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtes(short a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtzs(short a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_sats(short a) { return saturate<unsigned long>(a); }
unsigned long _Z13convert_ulongt(unsigned short a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtet(unsigned short a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtzt(unsigned short a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_satt(unsigned short a) { return saturate<unsigned long>(a); }
unsigned long _Z13convert_ulongi(int a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtei(int a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtzi(int a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_sati(int a) { return saturate<unsigned long>(a); }
unsigned long _Z13convert_ulongj(unsigned a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtej(unsigned a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtzj(unsigned a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_satj(unsigned a) { return saturate<unsigned long>(a); }
unsigned long _Z13convert_ulongl(long a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtel(long a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtzl(long a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_satl(long a) { return saturate<unsigned long>(a); }
unsigned long _Z13convert_ulongm(unsigned long a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtem(unsigned long a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtzm(unsigned long a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_satm(unsigned long a) { return saturate<unsigned long>(a); }
unsigned long _Z13convert_ulongf(float a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rtef(float a) { return (unsigned long)rint(a); }
unsigned long _Z17convert_ulong_rtzf(float a) { return (unsigned long)trunc(a); }
unsigned long _Z17convert_ulong_satf(float a) { return saturate<unsigned long>(a); }
unsigned long _Z13convert_ulongd(double a) { return (unsigned long)a; }
unsigned long _Z17convert_ulong_rted(double a) { return (unsigned long)rint(a); }
unsigned long _Z17convert_ulong_rtzd(double a) { return (unsigned long)trunc(a); }
unsigned long _Z17convert_ulong_satd(double a) { return saturate<unsigned long>(a); }
float _Z13convert_floatc(signed char a) { return (float)a; }
float _Z17convert_float_rtec(signed char a) { return (float)a; }
float _Z13convert_floath(unsigned char a) { return (float)a; }
float _Z17convert_float_rteh(unsigned char a) { return (float)a; }
float _Z13convert_floats(short a) { return (float)a; }
float _Z17convert_float_rtes(short a) { return (float)a; }
float _Z13convert_floatt(unsigned short a) { return (float)a; }
float _Z17convert_float_rtet(unsigned short a) { return (float)a; }
float _Z13convert_floati(int a) { return (float)a; }
float _Z17convert_float_rtei(int a) { return (float)a; }
float _Z13convert_floatj(unsigned a) { return (float)a; }
float _Z17convert_float_rtej(unsigned a) { return (float)a; }
float _Z13convert_floatl(long a) { return (float)a; }
float _Z17convert_float_rtel(long a) { return (float)a; }
float _Z13convert_floatm(unsigned long a) { return (float)a; }
float _Z17convert_float_rtem(unsigned long a) { return (float)a; }
float _Z13convert_floatf(float a) { return (float)a; }
float _Z17convert_float_rtef(float a) { return (float)a; }
float _Z13convert_floatd(double a) { return (float)a; }
float _Z17convert_float_rted(double a) { return (float)a; }
double _Z14convert_doublec(signed char a) { return (double)a; }
double _Z18convert_double_rtec(signed char a) { return (double)a; }
double _Z14convert_doubleh(unsigned char a) { return (double)a; }
double _Z18convert_double_rteh(unsigned char a) { return (double)a; }
double _Z14convert_doubles(short a) { return (double)a; }
double _Z18convert_double_rtes(short a) { return (double)a; }
double _Z14convert_doublet(unsigned short a) { return (double)a; }
double _Z18convert_double_rtet(unsigned short a) { return (double)a; }
double _Z14convert_doublei(int a) { return (double)a; }
double _Z18convert_double_rtei(int a) { return (double)a; }
double _Z14convert_doublej(unsigned a) { return (double)a; }
double _Z18convert_double_rtej(unsigned a) { return (double)a; }
double _Z14convert_doublel(long a) { return (double)a; }
double _Z18convert_double_rtel(long a) { return (double)a; }
double _Z14convert_doublem(unsigned long a) { return (double)a; }
double _Z18convert_double_rtem(unsigned long a) { return (double)a; }
double _Z14convert_doublef(float a) { return (double)a; }
double _Z18convert_double_rtef(float a) { return (double)a; }
double _Z14convert_doubled(double a) { return (double)a; }
double _Z18convert_double_rted(double a) { return (double)a; }
unsigned char _Z3absc(signed char a) { return (unsigned char)(a < 0 ? -(long)a : (long)a); }
unsigned char _Z8abs_diffcc(signed char a, signed char b) { return a < b ? (unsigned char)b - (unsigned char)a : (unsigned char)a - (unsigned char)b; }
signed char _Z3mincc(signed char a, signed char b) { return b < a ? b : a; }
signed char _Z3maxcc(signed char a, signed char b) { return a < b ? b : a; }
signed char _Z5clampccc(signed char a, signed char b, signed char c) { return a < b ? b : c < a ? c : a; }
signed char _Z7add_satcc(signed char a, signed char b) { return saturate<signed char>((__int128)a + b); }
signed char _Z7sub_satcc(signed char a, signed char b) { return saturate<signed char>((__int128)a - b); }
signed char _Z4haddcc(signed char a, signed char b) { return (signed char)(((__int128)a + b) >> 1); }
signed char _Z5rhaddcc(signed char a, signed char b) { return (signed char)(((__int128)a + b + 1) >> 1); }
signed char _Z6mul_hicc(signed char a, signed char b) { return high(a, b); }
signed char _Z6mad_hiccc(signed char a, signed char b, signed char c) { return (signed char)(high(a, b) + c); }
signed char _Z3clzc(signed char a) { return (signed char)zeros((unsigned char)a); }
signed char _Z8popcountc(signed char a) { return (signed char)__builtin_popcountl((unsigned long)(unsigned char)a); }
signed char _Z9bitselectccc(signed char a, signed char b, signed char c) { return (signed char)((a & ~c) | (b & c)); }
signed char _Z6rotatecc(signed char a, signed char b) { const int n = sizeof a * 8, k = (int)(b & (n - 1)); unsigned char v = (unsigned char)a; return (signed char)(k ? v << k | v >> (n - k) : v); }
signed char _Z6selectccc(signed char a, signed char b, signed char c) { return c ? b : a; }
signed char _Z6selectcch(signed char a, signed char b, unsigned char c) { return c ? b : a; }
int _Z3anyc(signed char a) { return a < 0; }
int _Z3allc(signed char a) { return a < 0; }
unsigned char _Z3absh(unsigned char a) { return a; }
unsigned char _Z8abs_diffhh(unsigned char a, unsigned char b) { return a < b ? (unsigned char)b - (unsigned char)a : (unsigned char)a - (unsigned char)b; }
unsigned char _Z3minhh(unsigned char a, unsigned char b) { return b < a ? b : a; }
unsigned char _Z3maxhh(unsigned char a, unsigned char b) { return a < b ? b : a; }
unsigned char _Z5clamphhh(unsigned char a, unsigned char b, unsigned char c) { return a < b ? b : c < a ? c : a; }
unsigned char _Z7add_sathh(unsigned char a, unsigned char b) { return saturate<unsigned char>((__int128)a + b); }
unsigned char _Z7sub_sathh(unsigned char a, unsigned char b) { return saturate<unsigned char>((__int128)a - b); }
unsigned char _Z4haddhh(unsigned char a, unsigned char b) { return (unsigned char)(((__int128)a + b) >> 1); }
unsigned char _Z5rhaddhh(unsigned char a, unsigned char b) { return (unsigned char)(((__int128)a + b + 1) >> 1); }
unsigned char _Z6mul_hihh(unsigned char a, unsigned char b) { return high(a, b); }
unsigned char _Z6mad_hihhh(unsigned char a, unsigned char b, unsigned char c) { return (unsigned char)(high(a, b) + c); }
unsigned char _Z3clzh(unsigned char a) { return (unsigned char)zeros((unsigned char)a); }
unsigned char _Z8popcounth(unsigned char a) { return (unsigned char)__builtin_popcountl((unsigned long)(unsigned char)a); }
unsigned char _Z9bitselecthhh(unsigned char a, unsigned char b, unsigned char c) { return (unsigned char)((a & ~c) | (b & c)); }
unsigned char _Z6rotatehh(unsigned char a, unsigned char b) { const int n = sizeof a * 8, k = (int)(b & (n - 1)); unsigned char v = (unsigned char)a; return (unsigned char)(k ? v << k | v >> (n - k) : v); }
unsigned char _Z6selecthhc(unsigned char a, unsigned char b, signed char c) { return c ? b : a; }
unsigned char _Z6selecthhh(unsigned char a, unsigned char b, unsigned char c) { return c ? b : a; }
unsigned short _Z3abss(short a) { return (unsigned short)(a < 0 ? -(long)a : (long)a); }
unsigned short _Z8abs_diffss(short a, short b) { return a < b ? (unsigned short)b - (unsigned short)a : (unsigned short)a - (unsigned short)b; }
short _Z3minss(short a, short b) { return b < a ? b : a; }
short _Z3maxss(short a, short b) { return a < b ? b : a; }
short _Z5clampsss(short a, short b, short c) { return a < b ? b : c < a ? c : a; }
short _Z7add_satss(short a, short b) { return saturate<short>((__int128)a + b); }
short _Z7sub_satss(short a, short b) { return saturate<short>((__int128)a - b); }
short _Z4haddss(short a, short b) { return (short)(((__int128)a + b) >> 1); }
short _Z5rhaddss(short a, short b) { return (short)(((__int128)a + b + 1) >> 1); }
short _Z6mul_hiss(short a, short b) { return high(a, b); }
short _Z6mad_hisss(short a, short b, short c) { return (short)(high(a, b) + c); }
short _Z3clzs(short a) { return (short)zeros((unsigned short)a); }
short _Z8popcounts(short a) { return (short)__builtin_popcountl((unsigned long)(unsigned short)a); }
short _Z9bitselectsss(short a, short b, short c) { return (short)((a & ~c) | (b & c)); }
short _Z6rotatess(short a, short b) { const int n = sizeof a * 8, k = (int)(b & (n - 1)); unsigned short v = (unsigned short)a; return (short)(k ? v << k | v >> (n - k) : v); }
short _Z6selectsss(short a, short b, short c) { return c ? b : a; }
short _Z6selectsst(short a, short b, unsigned short c) { return c ? b : a; }
int _Z3anys(short a) { return a < 0; }
int _Z3alls(short a) { return a < 0; }
unsigned short _Z3abst(unsigned short a) { return a; }
unsigned short _Z8abs_difftt(unsigned short a, unsigned short b) { return a < b ? (unsigned short)b - (unsigned short)a : (unsigned short)a - (unsigned short)b; }
unsigned short _Z3mintt(unsigned short a, unsigned short b) { return b < a ? b : a; }
unsigned short _Z3maxtt(unsigned short a, unsigned short b) { return a < b ? b : a; }
unsigned short _Z5clampttt(unsigned short a, unsigned short b, unsigned short c) { return a < b ? b : c < a ? c : a; }
unsigned short _Z7add_sattt(unsigned short a, unsigned short b) { return saturate<unsigned short>((__int128)a + b); }
unsigned short _Z7sub_sattt(unsigned short a, unsigned short b) { return saturate<unsigned short>((__int128)a - b); }
unsigned short _Z4haddtt(unsigned short a, unsigned short b) { return (unsigned short)(((__int128)a + b) >> 1); }
unsigned short _Z5rhaddtt(unsigned short a, unsigned short b) { return (unsigned short)(((__int128)a + b + 1) >> 1); }
unsigned short _Z6mul_hitt(unsigned short a, unsigned short b) { return high(a, b); }
unsigned short _Z6mad_hittt(unsigned short a, unsigned short b, unsigned short c) { return (unsigned short)(high(a, b) + c); }
unsigned short _Z3clzt(unsigned short a) { return (unsigned short)zeros((unsigned short)a); }
unsigned short _Z8popcountt(unsigned short a) { return (unsigned short)__builtin_popcountl((unsigned long)(unsigned short)a); }
unsigned short _Z9bitselectttt(unsigned short a, unsigned short b, unsigned short c) { return (unsigned short)((a & ~c) | (b & c)); }
unsigned short _Z6rotatett(unsigned short a, unsigned short b) { const int n = sizeof a * 8, k = (int)(b & (n - 1)); unsigned short v = (unsigned short)a; return (unsigned short)(k ? v << k | v >> (n - k) : v); }
unsigned short _Z6selecttts(unsigned short a, unsigned short b, short c) { return c ? b : a; }
unsigned short _Z6selectttt(unsigned short a, unsigned short b, unsigned short c) { return c ? b : a; }
unsigned _Z3absi(int a) { return (unsigned)(a < 0 ? -(long)a : (long)a); }
unsigned _Z8abs_diffii(int a, int b) { return a < b ? (unsigned)b - (unsigned)a : (unsigned)a - (unsigned)b; }
int _Z3minii(int a, int b) { return b < a ? b : a; }
int _Z3maxii(int a, int b) { return a < b ? b : a; }
int _Z5clampiii(int a, int b, int c) { return a < b ? b : c < a ? c : a; }
int _Z7add_satii(int a, int b) { return saturate<int>((__int128)a + b); }
int _Z7sub_satii(int a, int b) { return saturate<int>((__int128)a - b); }
int _Z4haddii(int a, int b) { return (int)(((__int128)a + b) >> 1); }
int _Z5rhaddii(int a, int b) { return (int)(((__int128)a + b + 1) >> 1); }
int _Z6mul_hiii(int a, int b) { return high(a, b); }
int _Z6mad_hiiii(int a, int b, int c) { return (int)(high(a, b) + c); }
int _Z3clzi(int a) { return (int)zeros((unsigned)a); }
int _Z8popcounti(int a) { return (int)__builtin_popcountl((unsigned long)(unsigned)a); }
int _Z9bitselectiii(int a, int b, int c) { return (int)((a & ~c) | (b & c)); }
int _Z6rotateii(int a, int b) { const int n = sizeof a * 8, k = (int)(b & (n - 1)); unsigned v = (unsigned)a; return (int)(k ? v << k | v >> (n - k) : v); }
int _Z6selectiii(int a, int b, int c) { return c ? b : a; }
int _Z6selectiij(int a, int b, unsigned c) { return c ? b : a; }
int _Z3anyi(int a) { return a < 0; }
int _Z3alli(int a) { return a < 0; }
int _Z5mul24ii(int a, int b) { return a * b; }
int _Z5mad24iii(int a, int b, int c) { return a * b + c; }
unsigned _Z3absj(unsigned a) { return a; }
unsigned _Z8abs_diffjj(unsigned a, unsigned b) { return a < b ? (unsigned)b - (unsigned)a : (unsigned)a - (unsigned)b; }
unsigned _Z3minjj(unsigned a, unsigned b) { return b < a ? b : a; }
unsigned _Z3maxjj(unsigned a, unsigned b) { return a < b ? b : a; }
unsigned _Z5clampjjj(unsigned a, unsigned b, unsigned c) { return a < b ? b : c < a ? c : a; }
unsigned _Z7add_satjj(unsigned a, unsigned b) { return saturate<unsigned>((__int128)a + b); }
unsigned _Z7sub_satjj(unsigned a, unsigned b) { return saturate<unsigned>((__int128)a - b); }
unsigned _Z4haddjj(unsigned a, unsigned b) { return (unsigned)(((__int128)a + b) >> 1); }
unsigned _Z5rhaddjj(unsigned a, unsigned b) { return (unsigned)(((__int128)a + b + 1) >> 1); }
unsigned _Z6mul_hijj(unsigned a, unsigned b) { return high(a, b); }
unsigned _Z6mad_hijjj(unsigned a, unsigned b, unsigned c) { return (unsigned)(high(a, b) + c); }
unsigned _Z3clzj(unsigned a) { return (unsigned)zeros((unsigned)a); }
unsigned _Z8popcountj(unsigned a) { return (unsigned)__builtin_popcountl((unsigned long)(unsigned)a); }
unsigned _Z9bitselectjjj(unsigned a, unsigned b, unsigned c) { return (unsigned)((a & ~c) | (b & c)); }
unsigned _Z6rotatejj(unsigned a, unsigned b) { const int n = sizeof a * 8, k = (int)(b & (n - 1)); unsigned v = (unsigned)a; return (unsigned)(k ? v << k | v >> (n - k) : v); }
unsigned _Z6selectjji(unsigned a, unsigned b, int c) { return c ? b : a; }
unsigned _Z6selectjjj(unsigned a, unsigned b, unsigned c) { return c ? b : a; }
unsigned _Z5mul24jj(unsigned a, unsigned b) { return a * b; }
unsigned _Z5mad24jjj(unsigned a, unsigned b, unsigned c) { return a * b + c; }
unsigned long _Z3absl(long a) { return (unsigned long)(a < 0 ? -(long)a : (long)a); }
unsigned long _Z8abs_diffll(long a, long b) { return a < b ? (unsigned long)b - (unsigned long)a : (unsigned long)a - (unsigned long)b; }
long _Z3minll(long a, long b) { return b < a ? b : a; }
long _Z3maxll(long a, long b) { return a < b ? b : a; }
long _Z5clamplll(long a, long b, long c) { return a < b ? b : c < a ? c : a; }
long _Z7add_satll(long a, long b) { long v; return __builtin_add_overflow(a, b, &v) ? (a < 0 ? std::numeric_limits<long>::lowest() : std::numeric_limits<long>::max()) : v; }
long _Z7sub_satll(long a, long b) { long v; return __builtin_sub_overflow(a, b, &v) ? (a < 0 ? std::numeric_limits<long>::lowest() : std::numeric_limits<long>::max()) : v; }
long _Z4haddll(long a, long b) { return (long)(((__int128)a + b) >> 1); }
long _Z5rhaddll(long a, long b) { return (long)(((__int128)a + b + 1) >> 1); }
long _Z6mul_hill(long a, long b) { return high(a, b); }
long _Z6mad_hilll(long a, long b, long c) { return (long)(high(a, b) + c); }
long _Z3clzl(long a) { return (long)zeros((unsigned long)a); }
long _Z8popcountl(long a) { return (long)__builtin_popcountl((unsigned long)(unsigned long)a); }
long _Z9bitselectlll(long a, long b, long c) { return (long)((a & ~c) | (b & c)); }
long _Z6rotatell(long a, long b) { const int n = sizeof a * 8, k = (int)(b & (n - 1)); unsigned long v = (unsigned long)a; return (long)(k ? v << k | v >> (n - k) : v); }
long _Z6selectlll(long a, long b, long c) { return c ? b : a; }
long _Z6selectllm(long a, long b, unsigned long c) { return c ? b : a; }
int _Z3anyl(long a) { return a < 0; }
int _Z3alll(long a) { return a < 0; }
unsigned long _Z3absm(unsigned long a) { return a; }
unsigned long _Z8abs_diffmm(unsigned long a, unsigned long b) { return a < b ? (unsigned long)b - (unsigned long)a : (unsigned long)a - (unsigned long)b; }
unsigned long _Z3minmm(unsigned long a, unsigned long b) { return b < a ? b : a; }
unsigned long _Z3maxmm(unsigned long a, unsigned long b) { return a < b ? b : a; }
unsigned long _Z5clampmmm(unsigned long a, unsigned long b, unsigned long c) { return a < b ? b : c < a ? c : a; }
unsigned long _Z7add_satmm(unsigned long a, unsigned long b) { unsigned long v; return __builtin_add_overflow(a, b, &v) ? std::numeric_limits<unsigned long>::max() : v; }
unsigned long _Z7sub_satmm(unsigned long a, unsigned long b) { unsigned long v; return __builtin_sub_overflow(a, b, &v) ? 0 : v; }
unsigned long _Z4haddmm(unsigned long a, unsigned long b) { return (unsigned long)(((__int128)a + b) >> 1); }
unsigned long _Z5rhaddmm(unsigned long a, unsigned long b) { return (unsigned long)(((__int128)a + b + 1) >> 1); }
unsigned long _Z6mul_himm(unsigned long a, unsigned long b) { return high(a, b); }
unsigned long _Z6mad_himmm(unsigned long a, unsigned long b, unsigned long c) { return (unsigned long)(high(a, b) + c); }
unsigned long _Z3clzm(unsigned long a) { return (unsigned long)zeros((unsigned long)a); }
unsigned long _Z8popcountm(unsigned long a) { return (unsigned long)__builtin_popcountl((unsigned long)(unsigned long)a); }
unsigned long _Z9bitselectmmm(unsigned long a, unsigned long b, unsigned long c) { return (unsigned long)((a & ~c) | (b & c)); }
unsigned long _Z6rotatemm(unsigned long a, unsigned long b) { const int n = sizeof a * 8, k = (int)(b & (n - 1)); unsigned long v = (unsigned long)a; return (unsigned long)(k ? v << k | v >> (n - k) : v); }
unsigned long _Z6selectmml(unsigned long a, unsigned long b, long c) { return c ? b : a; }
unsigned long _Z6selectmmm(unsigned long a, unsigned long b, unsigned long c) { return c ? b : a; }
float _Z4fabsf(float a) { return std::fabs(a); }
float _Z4sqrtf(float a) { return std::sqrt(a); }
float _Z5floorf(float a) { return std::floor(a); }
float _Z4ceilf(float a) { return std::ceil(a); }
float _Z5roundf(float a) { return std::round(a); }
float _Z5truncf(float a) { return std::trunc(a); }
float _Z4rintf(float a) { return std::rint(a); }
float _Z3expf(float a) { return std::exp(a); }
float _Z3logf(float a) { return std::log(a); }
float _Z4exp2f(float a) { return std::exp2(a); }
float _Z4log2f(float a) { return std::log2(a); }
float _Z5log10f(float a) { return std::log10(a); }
float _Z3sinf(float a) { return std::sin(a); }
float _Z3cosf(float a) { return std::cos(a); }
float _Z3tanf(float a) { return std::tan(a); }
float _Z4cbrtf(float a) { return std::cbrt(a); }
float _Z5rsqrtf(float a) { return 1 / std::sqrt(a); }
float _Z4signf(float a) { return a > 0 ? 1 : a < 0 ? -1 : a == 0 ? a : 0; }
float _Z4fminff(float a, float b) { return std::fmin(a, b); }
float _Z4fmaxff(float a, float b) { return std::fmax(a, b); }
float _Z3powff(float a, float b) { return std::pow(a, b); }
float _Z4fmodff(float a, float b) { return std::fmod(a, b); }
float _Z8copysignff(float a, float b) { return std::copysign(a, b); }
float _Z4fdimff(float a, float b) { return std::fdim(a, b); }
float _Z5hypotff(float a, float b) { return std::hypot(a, b); }
float _Z9nextafterff(float a, float b) { return std::nextafter(a, b); }
float _Z9remainderff(float a, float b) { return std::remainder(a, b); }
float _Z3minff(float a, float b) { return b < a ? b : a; }
float _Z3maxff(float a, float b) { return a < b ? b : a; }
float _Z5clampfff(float a, float b, float c) { return a < b ? b : c < a ? c : a; }
float _Z4stepff(float a, float b) { return b < a ? 0 : 1; }
float _Z3mixfff(float a, float b, float c) { return a + (b - a) * c; }
float _Z3madfff(float a, float b, float c) { return a * b + c; }
float _Z3fmafff(float a, float b, float c) { return std::fma(a, b, c); }
float _Z4pownfi(float a, int b) { float v = 1; for (int i = 0; i < (b < 0 ? -b : b); ++i) v *= a; return b < 0 ? 1 / v : v; }
float _Z5ldexpfi(float a, int b) { return std::ldexp(a, b); }
int _Z5isnanf(float a) { return a != a; }
int _Z5isinff(float a) { return std::isinf(a); }
int _Z8isfinitef(float a) { return std::isfinite(a); }
int _Z7signbitf(float a) { return std::signbit(a); }
int _Z8isnormalf(float a) { return std::isnormal(a); }
int _Z6islessff(float a, float b) { return a < b; }
int _Z9isgreaterff(float a, float b) { return a > b; }
int _Z11islessequalff(float a, float b) { return a <= b; }
int _Z14isgreaterequalff(float a, float b) { return a >= b; }
int _Z7isequalff(float a, float b) { return a == b; }
int _Z10isnotequalff(float a, float b) { return a != b; }
int _Z9isorderedff(float a, float b) { return a == a && b == b; }
int _Z11isunorderedff(float a, float b) { return a != a || b != b; }
int _Z13islessgreaterff(float a, float b) { return a < b || a > b; }
float _Z6selectffi(float a, float b, int c) { return c ? b : a; }
float _Z6selectffj(float a, float b, unsigned c) { return c ? b : a; }
double _Z4fabsd(double a) { return std::fabs(a); }
double _Z4sqrtd(double a) { return std::sqrt(a); }
double _Z5floord(double a) { return std::floor(a); }
double _Z4ceild(double a) { return std::ceil(a); }
double _Z5roundd(double a) { return std::round(a); }
double _Z5truncd(double a) { return std::trunc(a); }
double _Z4rintd(double a) { return std::rint(a); }
double _Z3expd(double a) { return std::exp(a); }
double _Z3logd(double a) { return std::log(a); }
double _Z4exp2d(double a) { return std::exp2(a); }
double _Z4log2d(double a) { return std::log2(a); }
double _Z5log10d(double a) { return std::log10(a); }
double _Z3sind(double a) { return std::sin(a); }
double _Z3cosd(double a) { return std::cos(a); }
double _Z3tand(double a) { return std::tan(a); }
double _Z4cbrtd(double a) { return std::cbrt(a); }
double _Z5rsqrtd(double a) { return 1 / std::sqrt(a); }
double _Z4signd(double a) { return a > 0 ? 1 : a < 0 ? -1 : a == 0 ? a : 0; }
double _Z4fmindd(double a, double b) { return std::fmin(a, b); }
double _Z4fmaxdd(double a, double b) { return std::fmax(a, b); }
double _Z3powdd(double a, double b) { return std::pow(a, b); }
double _Z4fmoddd(double a, double b) { return std::fmod(a, b); }
double _Z8copysigndd(double a, double b) { return std::copysign(a, b); }
double _Z4fdimdd(double a, double b) { return std::fdim(a, b); }
double _Z5hypotdd(double a, double b) { return std::hypot(a, b); }
double _Z9nextafterdd(double a, double b) { return std::nextafter(a, b); }
double _Z9remainderdd(double a, double b) { return std::remainder(a, b); }
double _Z3mindd(double a, double b) { return b < a ? b : a; }
double _Z3maxdd(double a, double b) { return a < b ? b : a; }
double _Z5clampddd(double a, double b, double c) { return a < b ? b : c < a ? c : a; }
double _Z4stepdd(double a, double b) { return b < a ? 0 : 1; }
double _Z3mixddd(double a, double b, double c) { return a + (b - a) * c; }
double _Z3madddd(double a, double b, double c) { return a * b + c; }
double _Z3fmaddd(double a, double b, double c) { return std::fma(a, b, c); }
double _Z4powndi(double a, int b) { double v = 1; for (int i = 0; i < (b < 0 ? -b : b); ++i) v *= a; return b < 0 ? 1 / v : v; }
double _Z5ldexpdi(double a, int b) { return std::ldexp(a, b); }
int _Z5isnand(double a) { return a != a; }
int _Z5isinfd(double a) { return std::isinf(a); }
int _Z8isfinited(double a) { return std::isfinite(a); }
int _Z7signbitd(double a) { return std::signbit(a); }
int _Z8isnormald(double a) { return std::isnormal(a); }
int _Z6islessdd(double a, double b) { return a < b; }
int _Z9isgreaterdd(double a, double b) { return a > b; }
int _Z11islessequaldd(double a, double b) { return a <= b; }
int _Z14isgreaterequaldd(double a, double b) { return a >= b; }
int _Z7isequaldd(double a, double b) { return a == b; }
int _Z10isnotequaldd(double a, double b) { return a != b; }
int _Z9isordereddd(double a, double b) { return a == a && b == b; }
int _Z11isunordereddd(double a, double b) { return a != a || b != b; }
int _Z13islessgreaterdd(double a, double b) { return a < b || a > b; }
double _Z6selectddl(double a, double b, long c) { return c ? b : a; }
double _Z6selectddm(double a, double b, unsigned long c) { return c ? b : a; }
float _Z11native_sqrtf(float a) { return std::sqrt(a); }
float _Z10native_expf(float a) { return std::exp(a); }
float _Z10native_logf(float a) { return std::log(a); }
float _Z11native_exp2f(float a) { return std::exp2(a); }
float _Z11native_log2f(float a) { return std::log2(a); }
float _Z10native_sinf(float a) { return std::sin(a); }
float _Z10native_cosf(float a) { return std::cos(a); }
float _Z12native_recipf(float a) { return 1 / a; }
float _Z12native_rsqrtf(float a) { return 1 / std::sqrt(a); }
float _Z13native_divideff(float a, float b) { return a / b; }
float _Z9half_sqrtf(float a) { return std::sqrt(a); }
float _Z8half_expf(float a) { return std::exp(a); }
float _Z8half_logf(float a) { return std::log(a); }
float _Z9half_exp2f(float a) { return std::exp2(a); }
float _Z9half_log2f(float a) { return std::log2(a); }
float _Z8half_sinf(float a) { return std::sin(a); }
float _Z8half_cosf(float a) { return std::cos(a); }
float _Z10half_recipf(float a) { return 1 / a; }
float _Z10half_rsqrtf(float a) { return 1 / std::sqrt(a); }
float _Z11half_divideff(float a, float b) { return a / b; }
int _Z10atomic_andPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o & v; return o; }
int _Z9atomic_orPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o | v; return o; }
int _Z10atomic_xorPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o ^ v; return o; }
int _Z10atomic_addPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o + v; return o; }
int _Z10atomic_subPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o - v; return o; }
int _Z11atomic_xchgPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = v; return o; }
int _Z10atomic_maxPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o > v ? o : v; return o; }
int _Z10atomic_minPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o < v ? o : v; return o; }
int _Z10atomic_incPU8CLglobalVi(volatile int* p) { access((const void*)p, 4); int o = *p; *p = o + 1; return o; }
int _Z10atomic_decPU8CLglobalVi(volatile int* p) { access((const void*)p, 4); int o = *p; *p = o - 1; return o; }
int _Z14atomic_cmpxchgPU8CLglobalViii(volatile int* p, int c, int v) { access((const void*)p, 4); int o = *p; if (o == c) *p = v; return o; }
int _Z8atom_andPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o & v; return o; }
int _Z7atom_orPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o | v; return o; }
int _Z8atom_xorPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o ^ v; return o; }
int _Z8atom_addPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o + v; return o; }
int _Z8atom_subPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o - v; return o; }
int _Z9atom_xchgPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = v; return o; }
int _Z8atom_maxPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o > v ? o : v; return o; }
int _Z8atom_minPU8CLglobalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o < v ? o : v; return o; }
int _Z8atom_incPU8CLglobalVi(volatile int* p) { access((const void*)p, 4); int o = *p; *p = o + 1; return o; }
int _Z8atom_decPU8CLglobalVi(volatile int* p) { access((const void*)p, 4); int o = *p; *p = o - 1; return o; }
int _Z12atom_cmpxchgPU8CLglobalViii(volatile int* p, int c, int v) { access((const void*)p, 4); int o = *p; if (o == c) *p = v; return o; }
unsigned _Z10atomic_andPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o & v; return o; }
unsigned _Z9atomic_orPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o | v; return o; }
unsigned _Z10atomic_xorPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o ^ v; return o; }
unsigned _Z10atomic_addPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o + v; return o; }
unsigned _Z10atomic_subPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o - v; return o; }
unsigned _Z11atomic_xchgPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = v; return o; }
unsigned _Z10atomic_maxPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o > v ? o : v; return o; }
unsigned _Z10atomic_minPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o < v ? o : v; return o; }
unsigned _Z10atomic_incPU8CLglobalVj(volatile unsigned* p) { access((const void*)p, 4); unsigned o = *p; *p = o + 1; return o; }
unsigned _Z10atomic_decPU8CLglobalVj(volatile unsigned* p) { access((const void*)p, 4); unsigned o = *p; *p = o - 1; return o; }
unsigned _Z14atomic_cmpxchgPU8CLglobalVjjj(volatile unsigned* p, unsigned c, unsigned v) { access((const void*)p, 4); unsigned o = *p; if (o == c) *p = v; return o; }
unsigned _Z8atom_andPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o & v; return o; }
unsigned _Z7atom_orPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o | v; return o; }
unsigned _Z8atom_xorPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o ^ v; return o; }
unsigned _Z8atom_addPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o + v; return o; }
unsigned _Z8atom_subPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o - v; return o; }
unsigned _Z9atom_xchgPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = v; return o; }
unsigned _Z8atom_maxPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o > v ? o : v; return o; }
unsigned _Z8atom_minPU8CLglobalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o < v ? o : v; return o; }
unsigned _Z8atom_incPU8CLglobalVj(volatile unsigned* p) { access((const void*)p, 4); unsigned o = *p; *p = o + 1; return o; }
unsigned _Z8atom_decPU8CLglobalVj(volatile unsigned* p) { access((const void*)p, 4); unsigned o = *p; *p = o - 1; return o; }
unsigned _Z12atom_cmpxchgPU8CLglobalVjjj(volatile unsigned* p, unsigned c, unsigned v) { access((const void*)p, 4); unsigned o = *p; if (o == c) *p = v; return o; }
float _Z11atomic_xchgPU8CLglobalVff(volatile float* p, float v) { access((const void*)p, 4); float o = *p; *p = v; return o; }
int _Z10atomic_andPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o & v; return o; }
int _Z9atomic_orPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o | v; return o; }
int _Z10atomic_xorPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o ^ v; return o; }
int _Z10atomic_addPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o + v; return o; }
int _Z10atomic_subPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o - v; return o; }
int _Z11atomic_xchgPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = v; return o; }
int _Z10atomic_maxPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o > v ? o : v; return o; }
int _Z10atomic_minPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o < v ? o : v; return o; }
int _Z10atomic_incPU7CLlocalVi(volatile int* p) { access((const void*)p, 4); int o = *p; *p = o + 1; return o; }
int _Z10atomic_decPU7CLlocalVi(volatile int* p) { access((const void*)p, 4); int o = *p; *p = o - 1; return o; }
int _Z14atomic_cmpxchgPU7CLlocalViii(volatile int* p, int c, int v) { access((const void*)p, 4); int o = *p; if (o == c) *p = v; return o; }
int _Z8atom_andPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o & v; return o; }
int _Z7atom_orPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o | v; return o; }
int _Z8atom_xorPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o ^ v; return o; }
int _Z8atom_addPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o + v; return o; }
int _Z8atom_subPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o - v; return o; }
int _Z9atom_xchgPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = v; return o; }
int _Z8atom_maxPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o > v ? o : v; return o; }
int _Z8atom_minPU7CLlocalVii(volatile int* p, int v) { access((const void*)p, 4); int o = *p; (void)v; *p = o < v ? o : v; return o; }
int _Z8atom_incPU7CLlocalVi(volatile int* p) { access((const void*)p, 4); int o = *p; *p = o + 1; return o; }
int _Z8atom_decPU7CLlocalVi(volatile int* p) { access((const void*)p, 4); int o = *p; *p = o - 1; return o; }
int _Z12atom_cmpxchgPU7CLlocalViii(volatile int* p, int c, int v) { access((const void*)p, 4); int o = *p; if (o == c) *p = v; return o; }
unsigned _Z10atomic_andPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o & v; return o; }
unsigned _Z9atomic_orPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o | v; return o; }
unsigned _Z10atomic_xorPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o ^ v; return o; }
unsigned _Z10atomic_addPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o + v; return o; }
unsigned _Z10atomic_subPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o - v; return o; }
unsigned _Z11atomic_xchgPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = v; return o; }
unsigned _Z10atomic_maxPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o > v ? o : v; return o; }
unsigned _Z10atomic_minPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o < v ? o : v; return o; }
unsigned _Z10atomic_incPU7CLlocalVj(volatile unsigned* p) { access((const void*)p, 4); unsigned o = *p; *p = o + 1; return o; }
unsigned _Z10atomic_decPU7CLlocalVj(volatile unsigned* p) { access((const void*)p, 4); unsigned o = *p; *p = o - 1; return o; }
unsigned _Z14atomic_cmpxchgPU7CLlocalVjjj(volatile unsigned* p, unsigned c, unsigned v) { access((const void*)p, 4); unsigned o = *p; if (o == c) *p = v; return o; }
unsigned _Z8atom_andPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o & v; return o; }
unsigned _Z7atom_orPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o | v; return o; }
unsigned _Z8atom_xorPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o ^ v; return o; }
unsigned _Z8atom_addPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o + v; return o; }
unsigned _Z8atom_subPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o - v; return o; }
unsigned _Z9atom_xchgPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = v; return o; }
unsigned _Z8atom_maxPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o > v ? o : v; return o; }
unsigned _Z8atom_minPU7CLlocalVjj(volatile unsigned* p, unsigned v) { access((const void*)p, 4); unsigned o = *p; (void)v; *p = o < v ? o : v; return o; }
unsigned _Z8atom_incPU7CLlocalVj(volatile unsigned* p) { access((const void*)p, 4); unsigned o = *p; *p = o + 1; return o; }
unsigned _Z8atom_decPU7CLlocalVj(volatile unsigned* p) { access((const void*)p, 4); unsigned o = *p; *p = o - 1; return o; }
unsigned _Z12atom_cmpxchgPU7CLlocalVjjj(volatile unsigned* p, unsigned c, unsigned v) { access((const void*)p, 4); unsigned o = *p; if (o == c) *p = v; return o; }
float _Z11atomic_xchgPU7CLlocalVff(volatile float* p, float v) { access((const void*)p, 4); float o = *p; *p = v; return o; }
}
