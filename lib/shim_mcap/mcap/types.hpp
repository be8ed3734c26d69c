// Stand-in for the MCAP library (https://mcap.dev): the same interface, reading and writing MCAP files without chunks,
// indexes and compression. Only what converters need; messages, channels, schemas, metadata and attachments are complete.
#pragma once
#include <cstddef>
#include <cstdint>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace mcap {
using SchemaId = uint16_t;
using ChannelId = uint16_t;
using Timestamp = uint64_t;
using ByteOffset = uint64_t;
using KeyValueMap = std::unordered_map<std::string, std::string>;
using ByteArray = std::vector<std::byte>;
constexpr Timestamp MaxTime = std::numeric_limits<Timestamp>::max();
constexpr uint64_t DefaultChunkSize = 1024 * 768;

enum class Compression { None, Lz4, Zstd };
enum class CompressionLevel { Fastest, Fast, Default, Slow, Slowest };
enum class StatusCode { Success = 0, NotOpen, InvalidSchemaId, InvalidChannelId, FileTooSmall, ReadFailed, MagicMismatch, InvalidFile, InvalidRecord, InvalidOpCode, OpenFailed, MissingStatistics, MessageEncodingMismatch };
struct Status {
  StatusCode code = StatusCode::Success;
  std::string message;
  Status() = default;
  Status(StatusCode c) : code(c), message(c == StatusCode::Success ? "" : "error " + std::to_string(int(c))) {}
  Status(StatusCode c, const std::string& m) : code(c), message(m) {}
  bool ok() const { return code == StatusCode::Success; }
};
using ProblemCallback = std::function<void(const Status&)>;

enum class OpCode : uint8_t { Header = 1, Footer = 2, Schema = 3, Channel = 4, Message = 5, Attachment = 9, Metadata = 12, DataEnd = 15 };
struct Header {
  std::string profile, library;
};
struct Schema {
  SchemaId id = 0;
  std::string name, encoding;
  ByteArray data;
  Schema() = default;
  Schema(std::string_view n, std::string_view e, std::string_view d) : name(n), encoding(e), data((const std::byte*)d.data(), (const std::byte*)d.data() + d.size()) {}
  Schema(std::string_view n, std::string_view e, const ByteArray& d) : name(n), encoding(e), data(d) {}
};
struct Channel {
  ChannelId id = 0;
  std::string topic, messageEncoding;
  SchemaId schemaId = 0;
  KeyValueMap metadata;
  Channel() = default;
  Channel(std::string_view t, std::string_view m, SchemaId s, const KeyValueMap& kv = {}) : topic(t), messageEncoding(m), schemaId(s), metadata(kv) {}
};
using SchemaPtr = std::shared_ptr<Schema>;
using ChannelPtr = std::shared_ptr<Channel>;
struct Message {
  ChannelId channelId = 0;
  uint32_t sequence = 0;
  Timestamp logTime = 0, publishTime = 0;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
};
struct Attachment {
  Timestamp logTime = 0, createTime = 0;
  std::string name, mediaType;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
  uint32_t crc = 0;
};
struct AttachmentIndex {
  ByteOffset offset = 0, length = 0;
  Timestamp logTime = 0, createTime = 0;
  uint64_t dataSize = 0;
  std::string name, mediaType;
};
struct Metadata {
  std::string name;
  KeyValueMap metadata;
};
struct MetadataIndex {
  ByteOffset offset = 0, length = 0;
  std::string name;
};
struct Statistics {
  uint64_t messageCount = 0;
  uint16_t schemaCount = 0;
  uint32_t channelCount = 0, attachmentCount = 0, metadataCount = 0, chunkCount = 0;
  Timestamp messageStartTime = 0, messageEndTime = 0;
  std::unordered_map<ChannelId, uint64_t> channelMessageCounts;
};
struct Record {
  OpCode opcode{};
  uint64_t dataSize = 0;
  std::byte* data = nullptr;
  uint64_t recordSize() const { return 9 + dataSize; }
};
struct RecordOffset {
  ByteOffset offset = 0;
  std::optional<ByteOffset> chunkOffset;
};
struct MessageView {
  const Message& message;
  const ChannelPtr channel;
  const SchemaPtr schema;
  const RecordOffset messageOffset;
};

namespace shim {
inline const unsigned char kMagic[8] = {0x89, 'M', 'C', 'A', 'P', '0', '\r', '\n'};
struct Out {
  ByteArray b;
  template <class T>
  void num(T v) {
    for (size_t i = 0; i < sizeof(T); i++) b.push_back(std::byte(uint64_t(v) >> (8 * i)));
  }
  void raw(const void* p, size_t n) { b.insert(b.end(), (const std::byte*)p, (const std::byte*)p + n); }
  void str(std::string_view s) { num(uint32_t(s.size())), raw(s.data(), s.size()); }
  void map(const KeyValueMap& m) {
    Out o;
    for (auto& [k, v] : std::map<std::string, std::string>(m.begin(), m.end())) o.str(k), o.str(v);
    num(uint32_t(o.b.size())), raw(o.b.data(), o.b.size());
  }
};
struct In {
  const std::byte* p;
  size_t n;
  bool bad = false;
  template <class T>
  T num() {
    if (n < sizeof(T)) return bad = true, n = 0, T();
    uint64_t v = 0;
    for (size_t i = 0; i < sizeof(T); i++) v |= uint64_t(p[i]) << (8 * i);
    p += sizeof(T), n -= sizeof(T);
    return T(v);
  }
  const std::byte* take(size_t k) {
    if (n < k) return bad = true, n = 0, nullptr;
    auto q = p;
    p += k, n -= k;
    return q;
  }
  std::string str() {
    size_t k = num<uint32_t>();
    auto q = take(k);
    return q ? std::string((const char*)q, k) : "";
  }
  KeyValueMap map() {
    size_t k = num<uint32_t>();
    In i{p, k};
    if (!take(k)) return {};
    KeyValueMap m;
    while (i.n) {
      auto a = i.str();
      m[a] = i.str();
    }
    if (i.bad) bad = true;
    return m;
  }
};
}  // namespace shim
}  // namespace mcap
