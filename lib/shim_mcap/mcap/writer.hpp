#pragma once
#include "types.hpp"

namespace mcap {
struct McapWriterOptions {
  bool noChunkCRC = false, noAttachmentCRC = false, enableDataCRC = false, noSummaryCRC = false, noChunking = false, noMessageIndex = false, noSummary = false, forceCompression = false;
  uint64_t chunkSize = DefaultChunkSize;
  Compression compression = Compression::Zstd;
  CompressionLevel compressionLevel = CompressionLevel::Default;
  std::string profile, library = "shim";
  bool noRepeatedSchemas = false, noRepeatedChannels = false, noAttachmentIndex = false, noMetadataIndex = false, noChunkIndex = false, noStatistics = false, noSummaryOffsets = false;
  McapWriterOptions(std::string_view p) : profile(p) {}
};
class McapWriter {
 public:
  ~McapWriter() {
    try {
      close();
    } catch (...) {
    }
  }
  Status open(std::string_view name, const McapWriterOptions& o) {
    close();
    own_.open(std::string(name), std::ios::binary);
    if (!own_) return Status(StatusCode::OpenFailed, "cannot open " + std::string(name));
    open(own_, o);
    return {};
  }
  void open(std::ostream& s, const McapWriterOptions& o) {
    out_ = &s;
    schemas_.clear(), channels_.clear(), written_.clear();
    out_->write((const char*)shim::kMagic, 8);
    shim::Out b;
    b.str(o.profile), b.str(o.library + (o.compression == Compression::Zstd ? ";zstd" : o.compression == Compression::Lz4 ? ";lz4" : ";none"));
    record(OpCode::Header, b);
  }
  void close() {
    if (!out_) return;
    // schemas and channels that no message needed are in the summary only
    for (auto& s : schemas_) put(s);
    for (auto& c : channels_) put(c);
    shim::Out f;
    f.num(uint64_t(0)), f.num(uint64_t(0)), f.num(uint32_t(0));
    record(OpCode::Footer, f);
    out_->write((const char*)shim::kMagic, 8);
    out_->flush();
    out_ = nullptr;
    if (own_.is_open()) own_.close();
  }
  void terminate() {
    out_ = nullptr;
    if (own_.is_open()) own_.close();
  }
  void addSchema(Schema& s) {
    s.id = uint16_t(schemas_.size() + 1);
    schemas_.push_back(s);
  }
  void addChannel(Channel& c) {
    c.id = uint16_t(channels_.size() + 1);
    channels_.push_back(c);
  }
  Status write(const Message& m) {
    if (!out_) return StatusCode::NotOpen;
    if (m.channelId == 0 || m.channelId > channels_.size()) return Status(StatusCode::InvalidChannelId, "invalid channel id");
    auto& c = channels_[m.channelId - 1u];
    if (c.schemaId > schemas_.size()) return Status(StatusCode::InvalidSchemaId, "invalid schema id");
    if (c.schemaId) put(schemas_[c.schemaId - 1u]);
    put(c);
    shim::Out b;
    b.num(m.channelId), b.num(m.sequence), b.num(m.logTime), b.num(m.publishTime), b.raw(m.data, m.dataSize);
    record(OpCode::Message, b);
    return {};
  }
  Status write(Attachment& a) {
    if (!out_) return StatusCode::NotOpen;
    shim::Out b;
    b.num(a.logTime), b.num(a.createTime), b.str(a.name), b.str(a.mediaType), b.num(a.dataSize), b.raw(a.data, a.dataSize), b.num(a.crc);
    record(OpCode::Attachment, b);
    return {};
  }
  Status write(const Metadata& m) {
    if (!out_) return StatusCode::NotOpen;
    shim::Out b;
    b.str(m.name), b.map(m.metadata);
    record(OpCode::Metadata, b);
    return {};
  }

 private:
  void record(OpCode o, const shim::Out& b) {
    shim::Out h;
    h.num(uint8_t(o)), h.num(uint64_t(b.b.size()));
    out_->write((const char*)h.b.data(), 9);
    out_->write((const char*)b.b.data(), std::streamsize(b.b.size()));
  }
  void put(const Schema& s) {
    if (written_[{0, s.id}]) return;
    written_[{0, s.id}] = true;
    shim::Out b;
    b.num(s.id), b.str(s.name), b.str(s.encoding), b.num(uint32_t(s.data.size())), b.raw(s.data.data(), s.data.size());
    record(OpCode::Schema, b);
  }
  void put(const Channel& c) {
    if (written_[{1, c.id}]) return;
    written_[{1, c.id}] = true;
    shim::Out b;
    b.num(c.id), b.num(c.schemaId), b.str(c.topic), b.str(c.messageEncoding), b.map(c.metadata);
    record(OpCode::Channel, b);
  }
  std::ostream* out_ = nullptr;
  std::ofstream own_;
  std::vector<Schema> schemas_;
  std::vector<Channel> channels_;
  std::map<std::pair<int, uint16_t>, bool> written_;
};
}  // namespace mcap
