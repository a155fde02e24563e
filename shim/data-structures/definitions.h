// Stand-in for growt's uaGrow (linearizable concurrent hash map with a
// per-thread handle): sharded std::unordered_map, one mutex per shard.
// Same observable contract for the calls VieCut makes.
#pragma once
#include <array>
#include <cstdint>
#include <memory>
#include <mutex>
#include <unordered_map>
#include <utility>

namespace growt {
template <class Hash>
class uaGrow {
    static constexpr size_t kShards = 64;
    struct Shard {
        std::mutex m;
        std::unordered_map<uint64_t, uint64_t> map;
    };
    std::unique_ptr<std::array<Shard, kShards> > shards_;

 public:
    explicit uaGrow(size_t)
        : shards_(std::make_unique<std::array<Shard, kShards> >()) { }

    class iterator {
     public:
        iterator() : valid_(false) { }
        explicit iterator(std::pair<uint64_t, uint64_t> v)
            : valid_(true), v_(v) { }
        std::pair<uint64_t, uint64_t> operator * () const { return v_; }
        const std::pair<uint64_t, uint64_t>* operator -> () const {
            return &v_;
        }
        bool operator == (const iterator& o) const {
            return valid_ == o.valid_ && (!valid_ || v_.first == o.v_.first);
        }
        bool operator != (const iterator& o) const { return !(*this == o); }

     private:
        bool valid_;
        std::pair<uint64_t, uint64_t> v_;
    };

    class handle {
        uaGrow* t_;

     public:
        explicit handle(uaGrow* t) : t_(t) { }
        template <class F, class ... Args>
        std::pair<iterator, bool> insert_or_update(uint64_t k, uint64_t v, F f,
                                                   Args&& ... args) {
            Shard& s = (*t_->shards_)[Hash()(k) % kShards];
            std::lock_guard<std::mutex> g(s.m);
            auto it = s.map.find(k);
            if (it == s.map.end()) {
                s.map.emplace(k, v);
                return { iterator({ k, v }), true };
            }
            f(reinterpret_cast<size_t&>(it->second),
              std::forward<Args>(args) ...);
            return { iterator({ k, it->second }), false };
        }
        iterator find(uint64_t k) {
            Shard& s = (*t_->shards_)[Hash()(k) % kShards];
            std::lock_guard<std::mutex> g(s.m);
            auto it = s.map.find(k);
            return it == s.map.end() ? iterator()
                                     : iterator({ k, it->second });
        }
        iterator end() { return iterator(); }
    };
    handle get_handle() { return handle(this); }
};
}  // namespace growt
