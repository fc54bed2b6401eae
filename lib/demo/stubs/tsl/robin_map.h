// System tsl::robin_map plus the two members the drjit fork adds.
#pragma once
#include <cstdlib>
#define robin_map robin_map_base
#include "/usr/include/tsl/robin_map.h"
#undef robin_map
namespace tsl {
template <class K, class T, class H = std::hash<K>, class E = std::equal_to<K>,
          class A = std::allocator<std::pair<K, T>>, bool S = false,
          class G = rh::power_of_two_growth_policy<2>>
class robin_map : public robin_map_base<K, T, H, E, A, S, G> {
public:
    using Base = robin_map_base<K, T, H, E, A, S, G>;
    using Base::Base;
    using iterator = typename Base::iterator;
    void erase_fast(iterator it) { Base::erase(it); }
    template <class... Args>
    std::pair<iterator, bool> try_emplace_hash(size_t hash, const K &k, Args &&...args) {
        if (Base::hash_function()(k) != hash)
            abort(); // the precomputed hash must agree with the map's hasher
        return Base::try_emplace(k, std::forward<Args>(args)...);
    }
};
}
