// C37: the headers as a consumer includes them. A case is a sequence of headers with a language, compiler and settings: the
// program is compiled (and for whole programs linked and run) and its constants, sizes and results compared with those this
// harness gets. kind 1: one header; 2: ordered pairs; 3: ordered triples of C headers; 4: one header under the consumer's
// settings and surroundings; 5: whole C programs; 6: whole C++ programs with a C part.
#include <alloca.h>
#include <dlfcn.h>
#include <memory>
#include <sstream>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <vector>
#include "libpgfe/abstract_symmetric_crypter.hpp"
#include "libpgfe/base_encoding/base16.h"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.h"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.h"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/utils.hpp"
#include "libpgfe/version.h"
#define C37_NAME body_c
#include "c37_body.inc"
#define C37_NAMEPP body_cpp
#include "c37_bodypp.inc"
#include "mc.hpp"
using std::string;
using std::vector;

struct Probe {
    int h;
    const char *expr;
    unsigned long long val;
};
static const char *H[] = {
    "algorithm-choice.h", "generic.h", "version.h", "utils.h", "hashes.h", "hashes/md5.h", "hashes/sha1.h", "hashes/sha2.h", "hashes/sha3.h", "hmac/hmac.h", "otp/types.h", "otp/hotp.h", "otp/totp.h",
    "base_encoding/base16.h", "base_encoding/base32.h", "base_encoding/base64.h", "fishes/blowfish.h",
    "abstract_encoder.hpp", "abstract_symmetric_crypter.hpp", "algorithm_selectable.hpp", "base_encoding/abstract_base_encoding.hpp", "base_encoding/base16.hpp", "base_encoding/base32.hpp",
    "base_encoding/base64.hpp", "exceptions.hpp", "fishes/blowfish.hpp", "generic.hpp", "hashes/abstract_hash_encoder.hpp", "hashes/hash_encoder.hpp", "hmac/hmac_encoder.hpp", "otp/abstract_otp.hpp",
    "otp/hotp.hpp", "otp/totp.hpp", "sequential_data.hpp", "utils.hpp"};
enum { NC = 17, NH = 35 };
static int hx(const char *n) {
    for (int i = 0; i < NH; i++) if (!strcmp(H[i], n)) return i;
    abort();
}
static vector<Probe> &probes() {
    static vector<Probe> P;
    if (!P.empty()) return P;
#define K(h, x) P.push_back({hx(h), #x, (unsigned long long)(x)});
#define T(h, x) P.push_back({hx(h), "sizeof(" #x ")", sizeof(x)});
#define ALGS(X) X(md5, MD5, "hashes/md5.h") X(sha1, SHA1, "hashes/sha1.h") X(sha224, SHA224, "hashes/sha2.h") X(sha256, SHA256, "hashes/sha2.h") X(sha384, SHA384, "hashes/sha2.h") \
    X(sha512, SHA512, "hashes/sha2.h") X(sha512_224, SHA512_224, "hashes/sha2.h") X(sha512_256, SHA512_256, "hashes/sha2.h") X(sha3_224, SHA3_224, "hashes/sha3.h") \
    X(sha3_256, SHA3_256, "hashes/sha3.h") X(sha3_384, SHA3_384, "hashes/sha3.h") X(sha3_512, SHA3_512, "hashes/sha3.h")
#define XOFS(X) X(shake128, SHAKE128, "hashes/sha3.h") X(shake256, SHAKE256, "hashes/sha3.h") X(rawshake128, RawSHAKE128, "hashes/sha3.h") X(rawshake256, RawSHAKE256, "hashes/sha3.h")
#define A(l, U, h) K("algorithm-choice.h", U) K(h, PGFE_##U##_DIGEST_SIZE) K(h, PGFE_##U##_BLOCK_SIZE) T(h, struct pgfe_##l##_ctx) K("hashes.h", PGFE_##U##_DIGEST_SIZE) T("hashes.h", struct pgfe_##l##_ctx)
    ALGS(A) XOFS(A)
#undef A
#define A(l, U, h) T("hmac/hmac.h", struct pgfe_hmac_##l##_ctx)
    ALGS(A)
#undef A
    T("algorithm-choice.h", enum pgfe_algorithm_choice)
    T("generic.h", pgfe_encode_t) T("generic.h", pgfe_byte_t) T("generic.h", pgfe_ascii_t) T("generic.h", pgfe_word_t) T("generic.h", pgfe_word64_t) T("generic.h", pgfe_fake_uint64_t) T("generic.h", size_t)
    T("generic.h", uint64_t) T("generic.h", enum pgfe_algorithm_choice) K("generic.h", PGFE_BUFFER_SIZE) K("generic.h", pgfe_to_bit(5 + 1)) K("generic.h", pgfe_to_byte(64 + 64)) K("generic.h", pgfe_bit_rem(30 + 7))
    K("generic.h", (pgfe_encode_t)-1) K("generic.h", (pgfe_ascii_t)0 + SHAKE256)
    K("version.h", LIBPGFE_MAJOR_VERSION) K("version.h", LIBPGFE_MINOR_VERSION) K("version.h", LIBPGFE_REVISION) T("version.h", LIBPGFE_VERSION) T("version.h", LIBPGFE_VARIANT)
    T("otp/types.h", pgfe_otp_t) T("otp/types.h", pgfe_otp_counter_t) T("otp/types.h", pgfe_otp_secret_t) K("otp/types.h", (pgfe_otp_t)-1) K("otp/types.h", (pgfe_otp_counter_t)-1)
    T("otp/hotp.h", pgfe_otp_t) T("otp/hotp.h", pgfe_otp_counter_t) T("otp/totp.h", pgfe_totp_interval_t) T("otp/totp.h", pgfe_totp_delta_t) T("otp/totp.h", time_t) T("otp/totp.h", pgfe_otp_t)
    K("otp/totp.h", (pgfe_totp_interval_t)-1)
    T("hashes/sha3.h", struct pgfe_keccak_sponge_ctx) T("fishes/blowfish.h", struct pgfe_blowfish_ctx) T("fishes/blowfish.h", pgfe_blowfish_block_t)
#define B(n, l) K(l, PGFE_BASE##n##_UNIT_SIZE) K(l, PGFE_BASE##n##_CHUNK_COUNT) K(l, PGFE_BASE##n##_BIT_SIZE) K(l, PGFE_BASE##n##_ALPHABET_SIZE)
    B(16, "base_encoding/base16.h") B(32, "base_encoding/base32.h") B(64, "base_encoding/base64.h")
    using namespace libpgfe;
#define C(h, x) P.push_back({hx(h), "sizeof(libpgfe::" #x ")", sizeof(x)}); P.push_back({hx(h), "alignof(libpgfe::" #x ")", alignof(x)});
    C("abstract_encoder.hpp", AbstractEncoder) C("abstract_encoder.hpp", SequentialData) C("abstract_symmetric_crypter.hpp", AbstractSymmetricCrypter) C("algorithm_selectable.hpp", AlgorithmSelectable)
    C("base_encoding/abstract_base_encoding.hpp", AbstractBaseEncoding) C("base_encoding/abstract_base_encoding.hpp", base_short_size_t) C("base_encoding/base16.hpp", Base16) C("base_encoding/base32.hpp", Base32) C("base_encoding/base64.hpp", Base64)
    C("exceptions.hpp", NotInitializedException) C("exceptions.hpp", EncodingCompletedException) C("fishes/blowfish.hpp", Blowfish) C("generic.hpp", NotInitializedException)
    C("hashes/abstract_hash_encoder.hpp", AbstractHashEncoder) C("hashes/hash_encoder.hpp", HashEncoder) C("hmac/hmac_encoder.hpp", HMACEncoder) C("otp/abstract_otp.hpp", AbstractOTP) C("otp/hotp.hpp", HOTP)
    C("otp/totp.hpp", TOTP) C("sequential_data.hpp", SequentialData) C("sequential_data.hpp", pgfe_seqdata_t)
    return P;
}
// What each header lets one name besides the above.
static string uses(int h) {
    static std::map<string, string> U;
    if (U.empty()) {
        auto fns = [](std::initializer_list<const char *> l) {
            string s;
            for (const char *f : l) s += string(" (void)&") + f + ";";
            return s;
        };
#define A(l, U_, h) U[h] += fns({"pgfe_" #l "_encode", "pgfe_" #l "_encode_f", "pgfe_" #l "_encode_default", "pgfe_" #l "_encode_multiple", "pgfe_" #l "_init", "pgfe_" #l "_update", "pgfe_" #l "_digest"});
        ALGS(A) XOFS(A)
#undef A
#define A(l, U_, h) U["hmac/hmac.h"] += fns({"pgfe_hmac_" #l, "pgfe_hmac_" #l "_init", "pgfe_hmac_" #l "_set_key", "pgfe_hmac_" #l "_update", "pgfe_hmac_" #l "_digest"});
        ALGS(A)
#undef A
        U["hashes.h"] = U["hashes/md5.h"] + U["hashes/sha1.h"] + U["hashes/sha2.h"] + U["hashes/sha3.h"];
        U["hmac/hmac.h"] += " (void)&pgfe_hmac;" + U["hashes.h"];
        U["utils.h"] = fns({"pgfe_hash_to_hex_string", "pgfe_hex_string_to_hash", "pgfe_print_hash", "pgfe_hash_string_clean", "pgfe_hash_string_clean_", "pgfe_hash_length"});
        U["otp/hotp.h"] = fns({"pgfe_hotp_generic", "pgfe_hotp", "pgfe_hotp_4digits", "pgfe_hotp_6digits", "pgfe_hotp_8digits"});
        U["otp/totp.h"] = fns({"pgfe_totp_generic", "pgfe_totp", "pgfe_totp_4digits", "pgfe_totp_6digits", "pgfe_totp_8digits"});
        U["base_encoding/base16.h"] = fns({"pgfe_encode_base16", "pgfe_decode_base16"});
        U["base_encoding/base32.h"] = fns({"pgfe_encode_base32", "pgfe_encode_base32hex", "pgfe_decode_base32", "pgfe_decode_base32hex"});
        U["base_encoding/base64.h"] = fns({"pgfe_encode_base64", "pgfe_encode_base64_url", "pgfe_decode_base64"});
        U["fishes/blowfish.h"] = fns({"pgfe_blowfish_init", "pgfe_blowfish_encrypt_unit", "pgfe_blowfish_decrypt_unit", "pgfe_blowfish_encrypt", "pgfe_blowfish_decrypt"});
        U["generic.h"] = " pgfe_encode_func *f1 = 0; pgfe_encode_multi_func *f2 = 0; (void)f1; (void)f2; pgfe_fake_uint64_t u; u.left = 1, u.right = 2; (void)u;";
        U["algorithm-choice.h"] = " enum pgfe_algorithm_choice c = SHA3_512; switch (c) { case MD5: break; default: break; }";
        U["version.h"] = " const char *v = LIBPGFE_VERSION LIBPGFE_VARIANT; (void)v;";
        U["otp/types.h"] = " pgfe_otp_t o = 1; pgfe_otp_counter_t n = 2; pgfe_otp_secret_t s[4]; (void)o; (void)n; (void)s;";
        U["abstract_encoder.hpp"] = " libpgfe::AbstractEncoder e; e.update(\"abc\"); std::string s(\"q\"); e.update(s); libpgfe::SequentialData d(\"a\"); e.update(d); e.reset(); (void)(e.get_digest() == nullptr);";
        U["abstract_symmetric_crypter.hpp"] = " libpgfe::AbstractSymmetricCrypter c; c.encrypt(\"abc\"); c.decrypt(std::string(\"q\")); libpgfe::SequentialData d(\"a\"); c.encrypt(d);";
        U["algorithm_selectable.hpp"] = " struct Q : libpgfe::AlgorithmSelectable { Q() { select_algorithm(SHA1); } } q; (void)(q.algorithm() == MD5);";
        U["base_encoding/abstract_base_encoding.hpp"] = " struct Q : libpgfe::AbstractBaseEncoding { void init_base_function(libpgfe::base_encode_func *&e, libpgfe::base_decode_func *&d) override { e = 0, d = 0; } } q; (void)q.unit_size();";
        for (int b : {16, 32, 64}) U[mc::strf("base_encoding/base%d.hpp", b)] = mc::strf(" libpgfe::Base%d b; libpgfe::AbstractBaseEncoding &r = b; std::string s = r.encode(\"abc\"); libpgfe::SequentialData d = b.decode(s); b.encode(d); (void)b.alphabet_size();", b);
        U["exceptions.hpp"] = " try { throw libpgfe::NotInitializedException(); } catch (const std::exception &x) { (void)x.what(); } libpgfe::EncodingCompletedException e; (void)e;";
        U["fishes/blowfish.hpp"] = " libpgfe::Blowfish b(\"key\"); libpgfe::Blowfish b2(std::string(\"k\")); libpgfe::SequentialData d = b.encrypt(\"abc\"); b.decrypt(d); libpgfe::AbstractSymmetricCrypter &r = b; (void)r;";
        U["generic.hpp"] = " using namespace libpgfe; (void)pgfe_option_map.size(); (void)pgfe_digest_length.at(SHA1); (void)pgfe_block_length.at(SHA1); (void)_algstr(\"md5\"); (void)_algstr(std::string(\"md5\")); (void)\"sha1\"_pgfe_alg;";
        U["hashes/abstract_hash_encoder.hpp"] = " libpgfe::AbstractHashEncoder e; libpgfe::AbstractEncoder &r = e; (void)r; (void)e.digest_size(); (void)e.block_size(); (void)(e.algorithm() == SHA1);";
        U["hashes/hash_encoder.hpp"] = " libpgfe::HashEncoder e(SHA1); libpgfe::AbstractHashEncoder &r = e; (void)r; e.update(\"abc\"); std::string s; e.update(s); libpgfe::SequentialData d; e.update(d); (void)e.get_digest(); (void)e.get_digest(128)->hex_str(); e.reset();";
        U["hmac/hmac_encoder.hpp"] = " libpgfe::HMACEncoder e(SHA1, \"key\"); libpgfe::AbstractHashEncoder &r = e; (void)r; e.update(\"abc\"); std::string s; libpgfe::HMACEncoder e2(MD5, s); libpgfe::SequentialData d; libpgfe::HMACEncoder e3(MD5, d); (void)e.get_digest();";
        U["otp/abstract_otp.hpp"] = " libpgfe::AbstractOTP o; o.set_secret(\"a\"); o.set_secret(std::string()); o.set_secret(libpgfe::SequentialData()); o.set_counter(3); std::string s = o.generate_str(8); (void)o.generate(7); (void)(o.algorithm() == MD5);";
        U["otp/hotp.hpp"] = " libpgfe::HOTP o; libpgfe::HOTP p(\"s\", SHA512); libpgfe::AbstractOTP &r = o; (void)r; o.set_secret(\"a\", true); o.set_secret_from_base32(\"GEZ\"); o.set_counter(3); std::string s = o.generate_str(8); (void)o.generate(7);";
        U["otp/totp.hpp"] = " libpgfe::TOTP o; libpgfe::TOTP p(\"s\", 60, SHA512); libpgfe::HOTP &r = o; (void)r; o.set_interval(3); o.set_initial_time(3); (void)o.interval(); (void)o.initial_time(); (void)o.update_time(); (void)o.remaining_time(); std::string s = o.generate_str(8);";
        U["sequential_data.hpp"] = " libpgfe::SequentialData d(\"a\"), e(d), f(std::string(\"b\")), g((const pgfe_encode_t *)\"abc\", 3); size_t n; (void)d.to_pgfe_seq(n); d.trim_(); std::string s = d.trim().hex_str() + d.to_str(false); std::ostringstream o; o << d;";
        U["utils.hpp"] = " std::string s(\"0a\"); libpgfe::SequentialData *d = libpgfe::utils::to_sequential_data(s); delete d; delete libpgfe::utils::sequential_data::from_hex_string(\"0b\"); delete libpgfe::utils::to_sequential_data((const pgfe_encode_t *)0, 0);";
    }
    return U[H[h]];
}
struct Cfg {
    const char *cc, *std;
    bool cpp;
};
static const Cfg CFG[] = {{"gcc", "c99", 0}, {"gcc", "c11", 0}, {"gcc", "gnu17", 0}, {"gcc", "c2x", 0}, {"clang", "c99", 0}, {"clang", "c11", 0}, {"clang", "gnu17", 0}, {"clang", "c2x", 0},
                          {"g++", "c++14", 1}, {"g++", "c++17", 1}, {"g++", "gnu++20", 1}, {"g++", "c++23", 1}, {"clang++", "c++14", 1}, {"clang++", "c++17", 1}, {"clang++", "gnu++20", 1}, {"clang++", "c++23", 1}};
enum { NCC = 8, NCFG = 16 };
// The consumer's settings, on the command line or in the text before the headers.
struct Env {
    const char *flags, *before, *after;
};
static const Env ENVS[] = {
    {"", "", ""},
    {"-DNDEBUG", "", ""},
    {"-D_GNU_SOURCE", "", ""},
    {"-D_POSIX_C_SOURCE=200809L", "", ""},
    {"-O2 -D_FORTIFY_SOURCE=2", "", ""},
    {"-O3 -funsigned-char", "", ""},
    {"-DDEBUG=1 -D_DEBUG=1", "", ""},
    {"-D_FILE_OFFSET_BITS=64 -D_DEFAULT_SOURCE", "", ""},
    {"-fPIC -fvisibility=hidden", "", ""},
    {"-Os -fno-strict-aliasing -fwrapv", "", ""},
    {"", "#include <stdlib.h>\n#include <string.h>\n#include <time.h>\n#include <stdio.h>\n#include <stdbool.h>\n#include <limits.h>\n#include <errno.h>\n#include <assert.h>\n", ""},
    {"-D_GLIBCXX_ASSERTIONS -D_REENTRANT", "#include <pthread.h>\n#include <math.h>\n#include <signal.h>\n#include <unistd.h>\n", ""},
    // in C++, the C headers the way one includes C headers that do not care for C++
    {"", "EXTERN_C", ""},
};
enum { NENV = sizeof ENVS / sizeof *ENVS };

static string repo() {
    const char *r = getenv("PGFE_REPO");
    return r && *r ? r : "/repo";
}
static string libpath() {
    Dl_info i;
    if (!dladdr((void *)&pgfe_md5_init, &i)) abort();
    char *p = realpath(i.dli_fname, 0);
    string s = p;
    free(p);
    return s;
}
static string here() {
    char *p = realpath(__FILE__, 0);
    string s = p ? p : __FILE__;
    free(p);
    return s.substr(0, s.rfind('/'));
}
// Runs a command with text on its standard input; what it says comes back.
static int run(const vector<string> &args, const string &input, string &out, const string &dir = "/") {
    mc::tick();
    int in[2], o[2];
    if (pipe(in) || pipe(o)) abort();
    pid_t p = fork();
    if (!p) {
        setpgid(0, 0);
        alarm(90);
        dup2(in[0], 0), dup2(o[1], 1), dup2(o[1], 2);
        close(in[0]), close(in[1]), close(o[0]), close(o[1]);
        if (chdir(dir.c_str())) _exit(125);
        vector<char *> a;
        for (auto &s : args) a.push_back((char *)s.c_str());
        a.push_back(0);
        execvp(a[0], a.data());
        _exit(126);
    }
    close(in[0]), close(o[1]);
    signal(SIGPIPE, SIG_IGN);
    size_t w = 0;
    while (w < input.size()) {  // the compiler reads all of it before it says anything of length
        ssize_t k = write(in[1], input.data() + w, input.size() - w);
        if (k <= 0) break;
        w += k;
    }
    close(in[1]);
    char buf[65536];
    ssize_t k;
    out.clear();
    while ((k = read(o[0], buf, sizeof buf)) > 0) out.append(buf, k);
    close(o[0]);
    int st;
    waitpid(p, &st, 0);
    mc::tick();
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void split(vector<string> &a, const char *flags) {
    std::istringstream s(flags);
    string w;
    while (s >> w) a.push_back(w);
}
static string include(int h, bool wrap) {
    string s = string("#include \"libpgfe/") + H[h] + "\"\n";
    return wrap && h < NC ? "#ifdef __cplusplus\nextern \"C\" {\n#endif\n" + s + "#ifdef __cplusplus\n}\n#endif\n" : s;
}
static string probe_text(const vector<int> &hs, bool cpp) {
    string s;
    std::vector<bool> seen(NH);
    for (int h : hs) {
        if (seen[h]) continue;
        seen[h] = true;
        int i = 0;
        for (auto &p : probes())
            if (p.h == h && (cpp || h < NC)) s += mc::strf("typedef char at_%d_%d[((unsigned long long)(%s) == %lluULL) ? 1 : -1];\n", h, i++, p.expr, p.val), mc::count("constants_and_sizes")++;
        if (cpp && !strcmp(H[h], "sequential_data.hpp")) s += "#include <sstream>\n";
        s += mc::strf("void use_%d(void);\nvoid use_%d(void) {", h, h) + uses(h) + " }\n";
    }
    return s;
}
static void compile_only(const vector<int> &hs, const Cfg &c, const Env &e, bool twice) {
    string t;
    bool wrap = !strcmp(e.before, "EXTERN_C");
    if (!wrap) t += e.before;
    for (int h : hs) t += include(h, wrap);
    if (twice)
        for (int h : hs) t += include(h, wrap);
    t += probe_text(hs, c.cpp);
    vector<string> a = {c.cc, string("-std=") + c.std, "-fsyntax-only", "-w"};
    split(a, e.flags);
    a.insert(a.end(), {"-I" + repo() + "/include", "-x", c.cpp ? "c++" : "c", "-"});
    string out;
    int rc = run(a, t, out);
    CHECK(rc != 126, "cannot run %s", c.cc);
    if (rc) {
        size_t q = out.find("error:");
        string what = q == string::npos ? out.substr(0, 300) : out.substr(out.rfind('\n', q) + 1, 300);
        CHECK(false, "%s -std=%s: %s", c.cc, c.std, what.c_str());
    }
    mc::count("compilations")++;
    mc::outcome(t.data(), t.size(), c.cpp);
}
struct Dir {
    string d;
    Dir() {
        char t[] = "/tmp/c37.XXXXXX";
        if (!mkdtemp(t)) abort();
        d = t;
    }
    ~Dir() {
        for (const char *f : {"a.o", "b.o", "c.o", "prog"}) unlink((d + "/" + f).c_str());
        rmdir(d.c_str());
    }
};
static string reference(bool cpp) {
    static string r[2];
    if (r[cpp].empty()) {
        vector<char> buf(400000);
        c37_out o = {buf.data(), 0, buf.size()};
        cpp ? body_cpp(&o) : body_c(&o);
        r[cpp].assign(buf.data(), o.n);
    }
    return r[cpp];
}
static const char *STD_C = "#include <stdio.h>\n#include <stdarg.h>\n#include <string.h>\n#include <stdint.h>\n#include <time.h>\n";
// The text of one part of a program: the headers in the order given (rotation and direction), then the body under a name.
static string part(const Env &e, int rot, bool back, bool cpp, bool with_c, const char *name, bool main) {
    bool wrap = !strcmp(e.before, "EXTERN_C");
    string t = wrap ? "" : e.before;
    int n = cpp ? NH : NC;
    for (int i = 0; i < n; i++) t += include((back ? 2 * n - 1 - i - rot : i + rot) % n, wrap);
    t += STD_C;
    if (cpp) t += "#include <memory>\n#include <sstream>\n";
    t += "#define C37_NAME body_" + string(name) + "\n#include \"" + here() + "/c37_body.inc\"\n";
    if (cpp) t += "#define C37_NAMEPP bodypp_" + string(name) + "\n#include \"" + here() + "/c37_bodypp.inc\"\n";
    const char *ext = cpp ? "extern \"C\" " : "";
    t += mc::strf("%svoid go_%s(int which);\n%svoid go_%s(int which) {\n  static char buf[400000];\n  c37_out o = {buf, 0, sizeof buf};\n", ext, name, ext, name);
    t += mc::strf("  if (which) { %s } else body_%s(&o);\n  fwrite(buf, 1, o.n, stdout); fputs(\"#####\\n\", stdout);\n}\n", cpp ? (string("bodypp_") + name + "(&o);").c_str() : "", name);
    if (main) {
        t += mc::strf("%svoid go_b(int);\n%s", ext, with_c ? mc::strf("%svoid go_c(int);\n", ext).c_str() : "");
        t += mc::strf("int main(void) { go_a(0); go_b(0); %s return 0; }\n", with_c ? "go_c(0); go_a(1); go_b(1);" : "");
    }
    return t;
}
static void program(const Cfg &c, const Cfg &cc, const Env &e, int rot) {
    Dir d;
    string out;
    auto comp = [&](const Cfg &k, const string &text, const char *obj) {
        vector<string> a = {k.cc, string("-std=") + k.std, "-w", "-c"};
        split(a, e.flags);
        a.insert(a.end(), {"-I" + repo() + "/include", "-x", k.cpp ? "c++" : "c", "-o", d.d + "/" + obj, "-"});
        int rc = run(a, text, out);
        if (rc) {
            size_t q = out.find("error:");
            string what = q == string::npos ? out.substr(0, 300) : out.substr(out.rfind('\n', q) + 1, 300);
            CHECK(false, "%s -std=%s %s, headers from number %d: %s", k.cc, k.std, e.flags, rot, what.c_str());
        }
        mc::count("compilations")++;
    };
    comp(c, part(e, rot, false, c.cpp, c.cpp, "a", true), "a.o");
    comp(c, part(e, rot, true, c.cpp, false, "b", false), "b.o");
    vector<string> l = {c.cc, "-o", d.d + "/prog", d.d + "/a.o", d.d + "/b.o"};
    if (c.cpp) comp(cc, part(e, rot % NC, false, false, false, "c", false), "c.o"), l.push_back(d.d + "/c.o");
    string lib = libpath();
    l.insert(l.end(), {lib, "-Wl,-rpath," + lib.substr(0, lib.rfind('/'))});
    int rc = run(l, "", out);
    CHECK(rc == 0, "the program does not link: %s", out.substr(0, 400).c_str());
    rc = run({d.d + "/prog"}, "", out, d.d);
    CHECK(rc == 0, "the program ends with %d: %s", rc, out.substr(0, 200).c_str());
    mc::count("programs_run")++;
    mc::outcome(out.data(), out.size());
    vector<string> want;
    if (c.cpp) want = {reference(0), reference(0), reference(0), reference(1), reference(1)};
    else want = {reference(0), reference(0)};
    size_t at = 0;
    for (size_t i = 0; i < want.size(); i++) {
        size_t q = out.find("#####\n", at);
        CHECK(q != string::npos, "part %zu of the program printed nothing", i);
        string got = out.substr(at, q - at);
        at = q + 6;
        if (got == want[i]) continue;
        size_t k = 0;
        while (k < got.size() && k < want[i].size() && got[k] == want[i][k]) k++;
        size_t ls = got.rfind('\n', k ? k - 1 : 0) + 1;
        CHECK(false, "part %zu of the program differs from the same text in the harness: \"%s\" instead of \"%s\"", i, got.substr(ls, 200).c_str(), want[i].substr(ls, 200).c_str());
    }
}
void run_case(const mc::Case &c) {
    const Cfg &k = CFG[c.v[0]];
    const Env &e = ENVS[c.v[1]];
    mc::count("executions")++;
    switch (c.kind) {
        case 1: case 4: return compile_only({(int)c.v[2]}, k, e, true);
        case 2: return compile_only({(int)c.v[2], (int)c.v[3]}, k, e, false);
        case 3: return compile_only({(int)c.v[2], (int)c.v[3], (int)c.v[4]}, k, e, false);
        case 5: case 6: return program(k, CFG[c.v[3]], e, (int)c.v[2]);
    }
}
void enumerate() {
    bool T = mc::thorough();
    auto nh = [](int cfg) { return CFG[cfg].cpp ? (int)NH : (int)NC; };
    for (int cfg = 0; cfg < NCFG; cfg++)
        for (int h = 0; h < nh(cfg); h++) mc::at(1, {cfg, 0, h});
    for (int cfg = 0; cfg < NCFG; cfg++) {
        bool all = T || cfg == 0 || cfg == 7 || cfg == 9;
        for (int a = 0; a < nh(cfg); a++)
            for (int b = 0; b < nh(cfg); b++)
                if (a != b && (all || (cfg == 13 && a < NC && b < NC))) mc::at(2, {cfg, 0, a, b});
    }
    for (int cfg : {1, 6})
        for (int a = 0; a < NC; a++)
            for (int b = 0; b < NC; b++)
                for (int d = 0; d < NC; d++)
                    if (a != b && b != d && a != d && (T || cfg == 1)) mc::at(3, {cfg, 0, a, b, d});
    for (int e = 1; e < NENV; e++)
        for (int cfg : {1, 2, 5, 8, 14})
            for (int h = 0; h < nh(cfg); h++)
                if (T || !CFG[cfg].cpp || h < NC || (cfg == 8) == (e & 1)) mc::at(4, {cfg, e, h});
    for (int e = 0; e < NENV; e++)
        for (int cfg = 0; cfg < NCFG; cfg++)
            for (int rot = 0; rot < nh(cfg); rot++) {
                bool cpp = CFG[cfg].cpp;
                // every rotation once with the plain settings, every setting once with every compiler and standard
                bool want = T || (e == 0 ? (cpp ? rot % 8 == cfg - NCC : rot % 4 == cfg % 4) : cpp ? rot == (e * 5 + cfg) % NH && cfg % 4 == e % 4 : rot == (e * 3 + cfg) % NC);
                if (want) mc::at(cpp ? 6 : 5, {cfg, e, rot, (cfg + e + rot) % NCC});
            }
}
std::string describe(const mc::Case &c) {
    const Cfg &k = CFG[c.v[0]];
    string s = mc::strf("%s -std=%s %s", k.cc, k.std, ENVS[c.v[1]].flags);
    if (*ENVS[c.v[1]].before) s += " (after other headers, or inside extern \"C\")";
    if (c.kind >= 5) return s + mc::strf(": whole program with all headers, starting with %s, in both directions", H[c.v[2]]);
    s += ": ";
    for (int i = 0; i < (c.kind == 3 ? 3 : c.kind == 2 ? 2 : 1); i++) s += string(i ? " then " : "") + H[c.v[2 + i]];
    return s;
}
void selfcheck() {
    // a header that is missing, a wrong size, and a program that prints something else have to be noticed
    string out;
    vector<string> a = {"gcc", "-std=c11", "-fsyntax-only", "-w", "-x", "c", "-"};
    if (run(a, "typedef char t[(sizeof(int) == 5) ? 1 : -1];\n", out) == 0) abort();
    if (run(a, "typedef char t[(sizeof(int) == 4) ? 1 : -1];\n", out) != 0) abort();
    if (run(a, "#include \"libpgfe/none.h\"\n", out) == 0) abort();
    if (reference(0).size() < 10000 || reference(1).size() < 5000) fprintf(stderr, "c37: reference program\n"), abort();
}
