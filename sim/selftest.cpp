// Commands on stdin, answers on stdout: lets check.py compare the reference models with Python's own implementations.
#include "core.h"
#include "ref.h"
#include <iostream>
#include <sstream>
static Bytes unhex(const std::string &s) {
    Bytes b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)std::stoi(s.substr(i, 2), nullptr, 16));
    return b;
}
static std::string tohex(const Bytes &b) {
    std::string s;
    char t[3];
    for (auto c : b) { snprintf(t, 3, "%02x", c); s += t; }
    return s;
}
int mode_selftest() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream f(l);
        std::string c, d, k;
        int a = 0;
        uint64_t n = 0;
        f >> c >> a >> n >> d >> k;
        Bytes x = unhex(d.substr(1)), y = unhex(k.size() ? k.substr(1) : "");
        if (c == "hash") {
            RefHash h(a);
            for (size_t i = 0, s = 1; i < x.size(); i += s, s = s * 5 % 97 + 1) h.update(&x[i], std::min<size_t>(s, x.size() - i));
            std::cout << tohex(is_xof(a) ? h.squeeze_bits(n) : h.digest()) << "\n";
        } else if (c == "hmac") std::cout << tohex(ref_hmac(a, y.data(), y.size(), x.data(), x.size())) << "\n";
        else if (c == "enc") std::cout << ref_base_encode(a, x.data(), x.size()) << "\n";
        else if (c == "dec") std::cout << tohex(ref_base_decode(a, std::string(x.begin(), x.end()))) << "\n";
        else if (c == "otp") std::cout << ref_otp_str(ref_hotp31(a, y, n), 8) << "\n";
        else if (c == "fish") { RefBlowfish b(y.data(), y.size()); std::cout << tohex(b.crypt(x.data(), x.size(), n)) << "\n"; }
        else std::cout << "?\n";
    }
    return 0;
}
