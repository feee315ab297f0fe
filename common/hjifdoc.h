// .hjif documents taken apart: their elements, what each must have, and members spoilt.
#pragma once
#include "model.h"
#include <IOHaptics/include/IOJson.h>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

namespace hd {
namespace ht = haptics::types;
namespace rj = rapidjson;

inline auto toDoc(ht::Haptics &h) -> rj::Document {
  std::string path = pbt::scratch() + "/d.hjif";
  haptics::io::IOJson::writeFile(h, path);
  std::string text = hm::readBytes(path);
  rj::Document d;
  d.Parse(text.c_str(), text.size());
  return d;
}
inline auto text(const rj::Document &d) -> std::string {
  rj::StringBuffer b;
  rj::Writer<rj::StringBuffer> w(b);
  d.Accept(w);
  return {b.GetString(), b.GetSize()};
}
struct Elem {
  rj::Value *array;
  int index;
  std::string kind;
  rj::Value *parent; // owner of the array
  bool inLibrary = false;
};
inline void collect(rj::Value &owner, const char *key, const std::string &kind, std::vector<Elem> &out) {
  if (!owner.HasMember(key) || !owner[key].IsArray()) {
    return;
  }
  auto &arr = owner[key];
  for (int i = 0; i < (int)arr.Size(); i++) {
    out.push_back({&arr, i, kind, &owner});
    auto &e = arr[i];
    if (kind == "perception") {
      collect(e, "reference_devices", "device", out);
      collect(e, "effect_library", "library effect", out);
      collect(e, "channels", "channel", out);
    } else if (kind == "channel") {
      collect(e, "bands", "band", out);
    } else if (kind == "band") {
      collect(e, "effects", "effect", out);
    } else if (kind == "effect" || kind == "library effect") {
      collect(e, "keyframes", "keyframe", out);
    }
  }
}
inline auto collectAll(rj::Document &d) -> std::vector<Elem> {
  std::vector<Elem> v;
  collect(d, "avatars", "avatar", v);
  collect(d, "perceptions", "perception", v);
  collect(d, "syncs", "sync", v);
  return v;
}
inline auto required(const Elem &e) -> std::vector<std::string> {
  auto &v = (*e.array)[e.index];
  if (e.kind == "avatar") {
    return {"id", "lod", "type"};
  }
  if (e.kind == "sync") {
    return {"timestamp"};
  }
  if (e.kind == "perception") {
    return {"id", "avatar_id", "description", "perception_modality", "channels", "effect_library"};
  }
  if (e.kind == "device") {
    return {"id", "name"};
  }
  if (e.kind == "channel") {
    return {"id", "description", "gain", "mixing_coefficient", "body_part_mask", "bands"};
  }
  if (e.kind == "band") {
    std::vector<std::string> r = {"band_type", "lower_frequency_limit", "upper_frequency_limit",
                                  "effects"};
    if (v["band_type"] == "WaveletWave") {
      r.push_back("block_length");
    }
    return r;
  }
  if (e.kind == "library effect") {
    return {"effect_type", "id", "position"};
  }
  if (e.kind == "effect") {
    std::vector<std::string> r = {"effect_type", "position"};
    if (v["effect_type"] == "Reference") {
      r.push_back("id");
    }
    if (v.HasMember("wavelet_stream")) {
      r.push_back("wavelet_stream");
    }
    return r;
  }
  return {};
}
inline auto keywordMember(const std::string &k) -> bool {
  return k == "type" || k == "perception_modality" || k == "band_type" || k == "effect_type" ||
         k == "curve_type" || k == "base_signal";
}

// replaces a member by something of another type
inline void spoil(pbt::Source &s, rj::Document &d, rj::Value &obj, const std::string &key, std::string &how) {
  auto &v = obj[key.c_str()];
  auto &al = d.GetAllocator();
  if (keywordMember(key) && v.IsString() && s.chance(1, 2)) {
    static const std::vector<std::string> bad = {"", "Nothing", "vectorialwave", "Basis ", "0"};
    std::string b = s.pick(bad);
    v.SetString(b.c_str(), al);
    how = "unknown keyword '" + b + "'";
    return;
  }
  int k = static_cast<int>(s.range(0, 4));
  if (v.IsString() && k == 1) {
    k = 0;
  }
  if (v.IsArray() && k == 2) {
    k = 0;
  }
  if (v.IsObject() && k == 3) {
    k = 0;
  }
  if (v.IsNumber() && k == 4) {
    k = 0;
  }
  switch (k) {
  case 0:
    v.SetNull();
    how = "null";
    break;
  case 1:
    v.SetString("7");
    how = "a string";
    break;
  case 2:
    v.SetArray();
    how = "an array";
    break;
  case 3:
    v.SetObject();
    how = "an object";
    break;
  default:
    v.SetInt(3);
    how = "a number";
    break;
  }
}

} // namespace hd
