#pragma once
#include <string>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
class String { std::string s; public: String(const char *c = "") : s(c ? c : "") {} String(const String &o) : s(o.s) {} explicit String(char c) : s(1, c) {} explicit String(int v) : s(std::to_string(v)) {} 
 String &operator=(const String &o) { s = o.s; return *this; } String &operator=(const char *c) { s = c ? c : ""; return *this; } const char *c_str() const { return s.c_str(); } unsigned int length() const { return s.size(); } bool operator==(const String &o) const { return s == o.s; } bool operator==(const char *o) const { return s == o; } bool operator!=(const String &o) const { return s != o.s; } String &operator+=(const String &o) { s += o.s; return *this; } String &operator+=(const char *o) { s += o; return *this; } String &operator+=(char o) { s += o; return *this; } char operator[](unsigned i) const { return s[i]; } };
inline String operator+(const String &a, const String &b) { String r(a); r += b; return r; }
class Print { public: virtual ~Print() {} virtual size_t write(uint8_t) = 0; virtual size_t write(const uint8_t *b, size_t n) { size_t k = 0; while (n--) k += write(*b++); return k; } size_t print(const char *c) { return write((const uint8_t *)c, strlen(c)); } size_t print(char c) { return write((uint8_t)c); } size_t print(const String &s) { return print(s.c_str()); } };
class Printable { public: virtual ~Printable() {} virtual size_t printTo(Print &p) const = 0; };
class Stream : public Print { public: virtual int available() = 0; virtual int read() = 0; virtual int peek() = 0; };
