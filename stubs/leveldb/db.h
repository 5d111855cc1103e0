#pragma once
#include <string>
namespace leveldb { struct Slice { Slice(const std::string&); Slice(const char*); Slice(const char*, size_t); }; struct Status { bool ok() const; bool IsNotFound() const; std::string ToString() const; }; enum CompressionType { kNoCompression, kSnappyCompression }; struct Options { bool create_if_missing, error_if_exists; CompressionType compression; size_t block_size; }; struct ReadOptions { bool verify_checksums; bool fill_cache; }; struct WriteOptions { bool sync; }; struct DB { virtual ~DB(); static Status Open(const Options&, const std::string&, DB**); virtual Status Put(const WriteOptions&, const Slice&, const Slice&) = 0; virtual Status Get(const ReadOptions&, const Slice&, std::string*) = 0; virtual Status Delete(const WriteOptions&, const Slice&) = 0; }; }
