// Operations of the serializer as a byte stream with a reading position.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <utility>
#include <array>
#include <vector>
#include <string>
#include <fstream>
#include <stdexcept>
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/CustomTypeTraits.h>
#include <sstream>
#include <iostream>
#include <map>
#include <set>
#include <list>
#include <functional>
#include <memory>
#include <limits>
#include <cmath>
#include <algorithm>
#include <mutex>
#include <thread>
#include <string>
#include <cctype>
#define private public    // the reading position is not observable otherwise
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#undef private
#define X extern "C"
#ifndef GV_TYPE
#define GV_TYPE unsigned char
#endif
typedef GV_TYPE T;
extern BinarySerializer g_s, g_t;
extern T g_v, g_w;
X size_t ob_len() { return g_s.mData.size(); }
X unsigned ob_byte(size_t i) { return g_s.mData[i]; }
X size_t ob_pos() { return g_s.mDataPosition; }
X size_t ob_tlen() { return g_t.mData.size(); }
X unsigned ob_tbyte(size_t i) { return g_t.mData[i]; }
X size_t ob_tpos() { return g_t.mDataPosition; }
X T ob_v() { return g_v; }
X T ob_w() { return g_w; }
X T ob_at(size_t i) { T v; std::memcpy(&v, g_s.mData.data() + i, sizeof(T)); return v; }
X void drv_write() { g_s.write(g_v); }
X void drv_shl() { g_s << g_v; }
X void drv_write2() { g_s.write(g_v, g_w); }
X void drv_read() { g_s.read(g_v); }
X void drv_shr() { g_s >> g_v; }
X void drv_get() { g_v = g_s.read<T>(); }
X void drv_read2() { g_s.read(g_v, g_w); }
X void drv_reset() { g_s.resetIterator(); }
X void drv_clear() { g_s.clear(); }
X bool drv_valid() { return g_s.isIteratorValid(); }
X size_t drv_data(size_t i) { g_v = g_s.getData()[i]; return g_s.getData().size(); }
X void drv_assign() { g_t = g_s; }
X size_t drv_copy(size_t i) { BinarySerializer x(g_s); g_v = x.mData[i]; g_t.mDataPosition = x.mDataPosition; return x.mData.size(); }
X void drv_fresh() { BinarySerializer x; x.write(g_v); x.write(g_v); x.read(g_w); }
#ifdef GV_FILE
extern std::string g_name;
X const std::string* ob_name() { return &g_name; }
X void drv_save() { g_s.saveToFile(g_name); }
X void drv_load() { g_s.loadFromFile(g_name); }
X void drv_trip() { g_s.saveToFile(g_name); g_t.loadFromFile(g_name); }
#endif
