// Linear-search stand-in for tsl::robin_map: key lookup is decided by the
// real key-equality functor alone, so symbolic keys fork on equality instead
// of on hash bits. Erasure keeps remaining entries in insertion order.
#pragma once
#include <cassert>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <tuple>
#include <cstdint>
#include <cstddef>
#include <functional>
#include <memory>
#include <utility>
#include <vector>
namespace tsl {
namespace detail_robin_hash {
template <class V, bool S> struct bucket_entry { int16_t d; bool l; alignas(V) unsigned char v[sizeof(V)]; };
}
namespace rh { template <size_t G> struct power_of_two_growth_policy { }; }
template <class K, class T, class H = std::hash<K>, class E = std::equal_to<K>,
          class A = std::allocator<std::pair<K, T>>, bool S = false,
          class G = rh::power_of_two_growth_policy<2>>
class robin_map {
public:
    using key_type = K; using mapped_type = T; using value_type = std::pair<K, T>;
    using size_type = size_t;
    struct Node { value_type kv; Node *next, *prev; template <class... X> Node(X &&...x) : kv(std::forward<X>(x)...), next(nullptr), prev(nullptr) { } };
    struct iterator {
        using iterator_category = std::forward_iterator_tag;
        using value_type = const std::pair<K, T>;
        using difference_type = std::ptrdiff_t;
        using reference = value_type &;
        using pointer = value_type *;
        Node *n;
        iterator(Node *n = nullptr) : n(n) { }
        const std::pair<K, T> &operator*() const { return n->kv; }
        const std::pair<K, T> *operator->() const { return &n->kv; }
        const K &key() const { return n->kv.first; }
        T &value() const { return n->kv.second; }
        iterator &operator++() { n = n->next; return *this; }
        iterator operator++(int) { iterator r = *this; n = n->next; return r; }
        bool operator==(const iterator &o) const { return n == o.n; }
        bool operator!=(const iterator &o) const { return n != o.n; }
    };
    using const_iterator = iterator;
    robin_map() { }
    explicit robin_map(size_t) { }
    robin_map(const robin_map &o) { for (auto const &kv : o) append(kv.first, kv.second); }
    robin_map(robin_map &&o) noexcept { swap(o); }
    robin_map &operator=(const robin_map &o) { if (this != &o) { clear(); for (auto const &kv : o) append(kv.first, kv.second); } return *this; }
    robin_map &operator=(robin_map &&o) noexcept { if (this != &o) { clear(); swap(o); } return *this; }
    ~robin_map() { clear(); }
    void swap(robin_map &o) { std::swap(m_head, o.m_head); std::swap(m_tail, o.m_tail); std::swap(m_size, o.m_size); }
    iterator begin() const { return iterator(m_head); }
    iterator end() const { return iterator(nullptr); }
    iterator cbegin() const { return begin(); }
    iterator cend() const { return end(); }
    bool empty() const { return m_size == 0; }
    size_t size() const { return m_size; }
    size_t bucket_count() const { return m_size; }
    float load_factor() const { return .5f; }
    void reserve(size_t) { }
    void rehash(size_t) { }
    void max_load_factor(float) { }
    void clear() { Node *n = m_head; while (n) { Node *x = n->next; delete n; n = x; } m_head = m_tail = nullptr; m_size = 0; }
    iterator find(const K &k) const { E eq; for (Node *n = m_head; n; n = n->next) if (eq(n->kv.first, k)) return iterator(n); return iterator(nullptr); }
    iterator find(const K &k, size_t) const { return find(k); }
    size_t count(const K &k) const { return find(k) != end() ? 1 : 0; }
    bool contains(const K &k) const { return find(k) != end(); }
    template <class P> std::pair<iterator, bool> insert(P &&p) { auto it = find(p.first); if (it != end()) return { it, false }; return { append(p.first, p.second), true }; }
    std::pair<iterator, bool> insert(std::pair<K, T> &&p) { auto it = find(p.first); if (it != end()) return { it, false }; return { append(std::move(p.first), std::move(p.second)), true }; }
    template <class... X> std::pair<iterator, bool> emplace(X &&...x) { return insert(std::pair<K, T>(std::forward<X>(x)...)); }
    template <class... X> std::pair<iterator, bool> try_emplace(const K &k, X &&...x) {
        auto it = find(k); if (it != end()) return { it, false };
        return { append(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<X>(x)...)), true }; }
    template <class... X> std::pair<iterator, bool> try_emplace_hash(size_t, const K &k, X &&...x) { return try_emplace(k, std::forward<X>(x)...); }
    template <class V> std::pair<iterator, bool> insert_or_assign(const K &k, V &&v) { auto it = find(k); if (it != end()) { it.value() = std::forward<V>(v); return { it, false }; } return { append(k, std::forward<V>(v)), true }; }
    T &operator[](const K &k) { return try_emplace(k).first.value(); }
    T &at(const K &k) { return find(k).value(); }
    iterator erase(iterator it) { Node *n = it.n, *nx = n->next; (n->prev ? n->prev->next : m_head) = n->next; (n->next ? n->next->prev : m_tail) = n->prev; delete n; m_size--; return iterator(nx); }
    void erase_fast(iterator it) { erase(it); }
    size_t erase(const K &k) { auto it = find(k); if (it == end()) return 0; erase(it); return 1; }
private:
    template <class... X> iterator append(X &&...x) { Node *n = new Node(std::forward<X>(x)...); n->prev = m_tail; if (m_tail) m_tail->next = n; else m_head = n; m_tail = n; m_size++; return iterator(n); }
    Node *m_head = nullptr, *m_tail = nullptr; size_t m_size = 0;
};
}
