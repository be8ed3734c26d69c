#pragma once
#include <cstdio>

#include "types.hpp"

namespace mcap {
struct IReadable {
  virtual ~IReadable() = default;
  virtual uint64_t size() const = 0;
  virtual uint64_t read(std::byte** output, uint64_t offset, uint64_t size) = 0;
};
class FileStreamReader final : public IReadable {
 public:
  FileStreamReader(std::ifstream& stream) : stream_(stream) {
    stream_.seekg(0, stream_.end);
    size_ = uint64_t(stream_.tellg());
    stream_.seekg(0, stream_.beg);
  }
  uint64_t size() const override { return size_; }
  uint64_t read(std::byte** output, uint64_t offset, uint64_t size) override {
    if (offset >= size_) return 0;
    stream_.seekg(std::streamoff(offset));
    buffer_.resize(std::min(size, size_ - offset));
    stream_.read((char*)buffer_.data(), std::streamsize(buffer_.size()));
    *output = buffer_.data();
    return uint64_t(stream_.gcount());
  }

 private:
  std::ifstream& stream_;
  uint64_t size_ = 0;
  std::vector<std::byte> buffer_;
};
enum struct ReadSummaryMethod { NoFallbackScan, AllowFallbackScan, ForceScan };
struct ReadMessageOptions {
  enum struct ReadOrder { FileOrder, LogTimeOrder, ReverseLogTimeOrder };
  Timestamp startTime = 0, endTime = MaxTime;
  std::function<bool(std::string_view)> topicFilter;
  ReadOrder readOrder = ReadOrder::FileOrder;
  ReadMessageOptions() = default;
  ReadMessageOptions(Timestamp a, Timestamp b) : startTime(a), endTime(b) {}
};
class McapReader;
struct LinearMessageView {
  struct Entry {
    Message m;
    ChannelPtr c;
    SchemaPtr s;
    ByteArray data;
    RecordOffset at;
  };
  std::shared_ptr<std::vector<Entry>> v = std::make_shared<std::vector<Entry>>();
  struct Iterator {
    std::shared_ptr<std::vector<Entry>> v;
    size_t i;
    ByteArray data;  // the data of a message lives until the next one is read
    Message m;
    std::optional<MessageView> view;
    Iterator(std::shared_ptr<std::vector<Entry>> a, size_t b) : v(a), i(b) { load(); }
    Iterator(const Iterator& o) : v(o.v), i(o.i) { load(); }
    void load() {
      view.reset();
      ByteArray().swap(data);
      if (i < v->size()) {
        auto& e = (*v)[i];
        data = ByteArray(e.data.begin(), e.data.end());
        m = e.m;
        m.data = data.data();
        view.emplace(MessageView{m, e.c, e.s, e.at});
      }
    }
    MessageView& operator*() { return *view; }
    MessageView* operator->() { return &*view; }
    Iterator& operator++() {
      i++;
      load();
      return *this;
    }
    void operator++(int) { ++*this; }
    bool operator==(const Iterator& o) const { return i == o.i; }
    bool operator!=(const Iterator& o) const { return i != o.i; }
  };
  Iterator begin() { return {v, 0}; }
  Iterator end() { return {v, v->size()}; }
};
class McapReader {
 public:
  ~McapReader() { close(); }
  Status open(IReadable& r) {
    close();
    src_ = &r;
    if (r.size() < 8 || r.size() == uint64_t(-1)) return close(), Status(StatusCode::FileTooSmall, "the file is too small");
    std::byte* p;
    if (r.read(&p, 0, 8) != 8 || memcmp(p, shim::kMagic, 8)) return close(), Status(StatusCode::MagicMismatch, "not an MCAP file");
    Record rec;
    auto s = ReadRecord(r, 8, &rec);
    if (!s.ok() || rec.opcode != OpCode::Header) return close(), Status(StatusCode::InvalidFile, "no header");
    shim::In in{rec.data, rec.dataSize};
    header_ = Header{in.str(), in.str()};
    return {};
  }
  Status open(std::string_view name) {
    own_stream_.open(std::string(name), std::ios::binary);
    if (!own_stream_) return Status(StatusCode::OpenFailed, "cannot open " + std::string(name));
    own_ = std::make_unique<FileStreamReader>(own_stream_);
    return open(*own_);
  }
  void close() {
    src_ = nullptr;
    header_.reset();
    schemas_.clear(), channels_.clear(), meta_.clear(), att_.clear();
    summary_ = false;
  }
  Status readSummary(ReadSummaryMethod, const ProblemCallback& problem = [](const Status&) {}) {
    if (!src_) return StatusCode::NotOpen;
    scan(problem, nullptr);
    summary_ = true;
    return {};
  }
  LinearMessageView readMessages(const ProblemCallback& problem, const ReadMessageOptions& o) {
    LinearMessageView v;
    if (!src_) return problem(StatusCode::NotOpen), v;
    scan(problem, [&](const Message& m, ByteOffset at) {
      if (m.logTime < o.startTime || m.logTime >= o.endTime) return;
      auto c = channel(m.channelId);
      if (!c) return problem(Status(StatusCode::InvalidChannelId, "message of an unknown channel"));
      if (o.topicFilter && !o.topicFilter(c->topic)) return;
      auto s = schema(c->schemaId);
      if (!s && c->schemaId != 0) return problem(Status(StatusCode::InvalidSchemaId, "message with an unknown schema"));
      v.v->push_back({m, c, s, ByteArray(m.data, m.data + m.dataSize), {at, {}}});
    });
    if (o.readOrder != ReadMessageOptions::ReadOrder::FileOrder)
      std::stable_sort(v.v->begin(), v.v->end(), [&](auto& a, auto& b) { return o.readOrder == ReadMessageOptions::ReadOrder::LogTimeOrder ? a.m.logTime < b.m.logTime : a.m.logTime > b.m.logTime; });
    return v;
  }
  LinearMessageView readMessages(Timestamp a = 0, Timestamp b = MaxTime) {
    return readMessages([](const Status&) {}, ReadMessageOptions(a, b));
  }
  LinearMessageView readMessages(const ProblemCallback& problem, Timestamp a = 0, Timestamp b = MaxTime) { return readMessages(problem, ReadMessageOptions(a, b)); }
  const std::optional<Header>& header() const { return header_; }
  std::unordered_map<ChannelId, ChannelPtr> channels() const { return channels_; }
  std::unordered_map<SchemaId, SchemaPtr> schemas() const { return schemas_; }
  ChannelPtr channel(ChannelId i) const {
    auto f = channels_.find(i);
    return f == channels_.end() ? nullptr : f->second;
  }
  SchemaPtr schema(SchemaId i) const {
    auto f = schemas_.find(i);
    return f == schemas_.end() ? nullptr : f->second;
  }
  const std::multimap<std::string, MetadataIndex>& metadataIndexes() const { return meta_; }
  const std::multimap<std::string, AttachmentIndex>& attachmentIndexes() const { return att_; }
  const std::optional<Statistics>& statistics() const { return stats_; }
  IReadable* dataSource() { return src_; }

  static Status ReadRecord(IReadable& r, uint64_t offset, Record* rec) {
    std::byte* p;
    if (r.read(&p, offset, 9) != 9) return Status(StatusCode::ReadFailed, "truncated record");
    shim::In in{p, 9};
    rec->opcode = OpCode(in.num<uint8_t>());
    rec->dataSize = in.num<uint64_t>();
    if (rec->dataSize > r.size() || r.read(&p, offset + 9, rec->dataSize) != rec->dataSize) return Status(StatusCode::ReadFailed, "truncated record");
    rec->data = p;
    return {};
  }
  static Status ParseMetadata(const Record& r, Metadata* m) {
    if (r.opcode != OpCode::Metadata) return StatusCode::InvalidOpCode;
    shim::In in{r.data, r.dataSize};
    m->name = in.str();
    m->metadata = in.map();
    return in.bad ? Status(StatusCode::InvalidRecord) : Status();
  }
  static Status ParseAttachment(const Record& r, Attachment* a) {
    if (r.opcode != OpCode::Attachment) return StatusCode::InvalidOpCode;
    shim::In in{r.data, r.dataSize};
    a->logTime = in.num<uint64_t>(), a->createTime = in.num<uint64_t>();
    a->name = in.str(), a->mediaType = in.str();
    a->dataSize = in.num<uint64_t>();
    a->data = in.take(a->dataSize);
    a->crc = in.num<uint32_t>();
    return in.bad ? Status(StatusCode::InvalidRecord) : Status();
  }

 private:
  void scan(const ProblemCallback& problem, const std::function<void(const Message&, ByteOffset)>& each) {
    if (!each) {
      schemas_.clear(), channels_.clear(), meta_.clear(), att_.clear();
      stats_ = Statistics();
    }
    for (uint64_t at = 8; at < src_->size();) {
      Record r;
      auto s = ReadRecord(*src_, at, &r);
      if (!s.ok()) return problem(s);
      const uint64_t here = at;
      at += r.recordSize();
      shim::In in{r.data, r.dataSize};
      switch (r.opcode) {
        case OpCode::Footer: return;
        case OpCode::Schema: {
          auto x = std::make_shared<Schema>();
          x->id = in.num<uint16_t>();
          x->name = in.str(), x->encoding = in.str();
          size_t n = in.num<uint32_t>();
          if (auto p = in.take(n)) x->data.assign(p, p + n);
          if (!schemas_.count(x->id)) schemas_[x->id] = x, stats_->schemaCount++;
          break;
        }
        case OpCode::Channel: {
          auto x = std::make_shared<Channel>();
          x->id = in.num<uint16_t>(), x->schemaId = in.num<uint16_t>();
          x->topic = in.str(), x->messageEncoding = in.str();
          x->metadata = in.map();
          if (!channels_.count(x->id)) channels_[x->id] = x, stats_->channelCount++;
          break;
        }
        case OpCode::Message: {
          Message m;
          m.channelId = in.num<uint16_t>(), m.sequence = in.num<uint32_t>();
          m.logTime = in.num<uint64_t>(), m.publishTime = in.num<uint64_t>();
          m.dataSize = in.n, m.data = in.p;
          if (each) each(m, here);
          else stats_->messageCount++, stats_->channelMessageCounts[m.channelId]++;
          break;
        }
        case OpCode::Metadata: {
          Metadata m;
          if (!each && ParseMetadata(r, &m).ok()) meta_.insert({m.name, MetadataIndex{here, r.recordSize(), m.name}}), stats_->metadataCount++;
          break;
        }
        case OpCode::Attachment: {
          Attachment a;
          if (!each && ParseAttachment(r, &a).ok()) att_.insert({a.name, AttachmentIndex{here, r.recordSize(), a.logTime, a.createTime, a.dataSize, a.name, a.mediaType}}), stats_->attachmentCount++;
          break;
        }
        default: break;
      }
      if (in.bad) return problem(Status(StatusCode::InvalidRecord, "damaged record"));
    }
  }
  IReadable* src_ = nullptr;
  std::ifstream own_stream_;
  std::unique_ptr<FileStreamReader> own_;
  std::optional<Header> header_;
  std::unordered_map<SchemaId, SchemaPtr> schemas_;
  std::unordered_map<ChannelId, ChannelPtr> channels_;
  std::multimap<std::string, MetadataIndex> meta_;
  std::multimap<std::string, AttachmentIndex> att_;
  std::optional<Statistics> stats_;
  bool summary_ = false;
};
}  // namespace mcap
