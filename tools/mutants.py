"""Mutants used while strengthening the checks: (name, properties expected to notice, file, old, new)."""
C="src/cachelot/"; S="src/server/"; A=S+"memcached/proto_ascii.cpp"
M=[]
def m(name, props, file, *pairs): M.append((name, props.split(), file, list(zip(pairs[::2], pairs[1::2]))))
m("slice_nul","C22 C09",C+"slice.h","return std::equal(begin(), end(), other.begin());","return std::strncmp(begin(), other.begin(), length()) == 0;")
m("extend_flags","C01",C+"cache.h","old_item->opaque_flags(), Item::infinite_TTL, ++m_newest","piece->opaque_flags(), Item::infinite_TTL, ++m_newest")
m("oom_arith_drop","C02 C07",C+"cache.h","            ItemPtr new_item;\n            const auto expiration_time = old_item->expiration_time();","            ItemPtr new_item;\n            const auto expiration_time = old_item->expiration_time();\n            const auto old_flags = old_item->opaque_flags();\n            m_dict.remove(at); destroy_item(old_item);","old_item->opaque_flags(), Item::infinite_TTL);\n            ItemAutoDelete _item_uniq_ptr(this, new_item);\n            new_item->set","old_flags, Item::infinite_TTL);\n            ItemAutoDelete _item_uniq_ptr(this, new_item);\n            new_item->set")
m("evict_expired_silent","C02",C+"cache.h","if (on_eviction) {","if (on_eviction && not i->is_expired()) {")
m("split_free_only","C03",C+"memalloc-inl.h","                if (reinterpret_cast<uint8 *>(block_after_next) < pgs->arena_end) {\n                    block_after_next->meta.left_adjacent_offset = leftover","                if (reinterpret_cast<uint8 *>(block_after_next) < pgs->arena_end && block_after_next->is_used()) {\n                    block_after_next->meta.left_adjacent_offset = leftover")
m("realloc_fail_size","C03",C+"memalloc-inl.h","checkout(blk, old_block_size);","checkout(blk, blk->size());")
m("merge_left_cross","C03",C+"memalloc-inl.h","while (left_block_boundary > page_begin &&","while (left_block_boundary >= page_begin && blk->meta.left_adjacent_offset > 0 &&")
m("no_merge_left","C04",C+"memalloc-inl.h","        blk = merge_free_left(blk);\n        blk = merge_free_right(blk);","        blk = merge_free_right(blk);")
m("no_merge_right","C04",C+"memalloc-inl.h","        blk = merge_free_left(blk);\n        blk = merge_free_right(blk);","        blk = merge_free_left(blk);")
m("cas_leak","C04",C+"cache.h","                    STAT_INCR(cache.cas_badval, 1);","                    STAT_INCR(cache.cas_badval, 1);\n                    _item_uniq_ptr.reset();")
m("extend_leak","C04",C+"cache.h","                    STAT_INCR(cache.append_misses, 1);","                    STAT_INCR(cache.append_misses, 1);\n                    _piece_unique_ptr.reset();")
m("expired_leak","C04",C+"cache.h","                    m_dict.remove(at);\n                    destroy_item(item);\n                    found = false;","                    m_dict.remove(at);\n                    if (item->value().length() > 0) destroy_item(item);\n                    found = false;")
m("bitidx_first","C04",C+"memalloc-inl.h","            if (second_level_bit_index[pos.pow_index] == 0) {\n                first","            if (second_level_bit_index[pos.pow_index] <= 1) {\n                first")
m("same_value_noop","C05",C+"cache.h","                STAT_INCR(cache.set_existing, 1);\n                replace","                STAT_INCR(cache.set_existing, 1);\n                if (at.value()->value() == item->value() && at.value()->opaque_flags() == item->opaque_flags()) { at.value()->set_expiration_time(item->expiration_time()); return; }\n                replace")
m("incr_inplace","C05",C+"cache.h","            ItemPtr new_item;\n            const auto exp","            if (new_ascii_value_length == old_ascii_value.length()) { old_item->assign_value(slice(new_ascii_value, new_ascii_value_length)); return make_tuple(true, new_int_value); }\n            ItemPtr new_item;\n            const auto exp")
m("cas32","C05",C+"cache.h","if (cas_unique == at.value()->timestamp())","if (static_cast<uint32>(cas_unique) == static_cast<uint32>(at.value()->timestamp()))")
m("cas_ge","C05",C+"cache.h","if (cas_unique == at.value()->timestamp())","if (cas_unique >= at.value()->timestamp())")
m("touch0","C06",C+"cache.h","item->set_ttl(keepalive); // update lifetime","if (keepalive != Item::infinite_TTL) item->set_ttl(keepalive);")
m("touch_revive","C06",C+"cache.h","            bool found; iterator at; const bool readonly = true;\n            tie(found, at) = retrieve_item(key, hash, readonly);\n            if (found) {\n                auto item = at.value();\n                m_alloc","            bool found; iterator at; const bool readonly = true;\n            tie(found, at) = m_dict.entry_for(key, non_zero_hash(hash), readonly);\n            if (found) {\n                auto item = at.value();\n                m_alloc")
m("remove_if_skip","C06 C04 C09",C+"hash_table.h","                        remove(pos);\n                        continue;","                        remove(pos);")
m("flush_all_ttl1","C06",C+"cache.h","                if (item->is_expired()) {\n                    destroy","                if (item->is_expired() || item->ttl().count() == 1) {\n                    destroy")
m("expire_lt","C06",C+"item.h","return m_expiration_time <= clock::now();","return m_expiration_time < clock::now();")
m("arith_signed","C07",C+"cache.h","str_to_int<uint64>(old_ascii","str_to_int<int64>(old_ascii")
m("arith_trim","C07",C+"cache.h","auto old_ascii_value = at.value()->value();","auto old_ascii_value = at.value()->value();\n            if (old_ascii_value.length() > 1 && old_ascii_value.endswith(slice::from_literal(\" \"))) old_ascii_value = old_ascii_value.rtrim_n(1);")
m("key250","C08",C+"cache.h","if (key.length() > Item::max_key_length)","if (key.length() >= Item::max_key_length)")
m("ht_remove_1","C09",C+"hash_table.h","get_distance(following_position, hash_at(following_position)) > 0)","get_distance(following_position, hash_at(following_position)) > 0 && following_position != 0)")
m("rehash_skip","C09",C+"dict.h","                m_secondary_tbl->remove(m_expand_pos);\n                elements","                m_secondary_tbl->remove(m_expand_pos);\n                m_expand_pos += 1;\n                elements")
m("dict_del_one","C09 C02",C+"dict.h","                if (not deleted) {\n                    deleted = m_primary_tbl->del(key, hash);\n                }\n","                if (not deleted && m_secondary_tbl->empty()) {\n                    deleted = m_primary_tbl->del(key, hash);\n                }\n")
m("dict_get_hash","C09",C+"hash_table.h","if (hash_at(pos) == hash && eq(entry_at(pos).key(), key))","if (hash_at(pos) == hash)")
m("val_wait","C10",A,"if (recv_buf.non_read() < datalen + CRLF.length()) {","if (recv_buf.non_read() <= datalen + CRLF.length()) {")
m("datalen32","C11",A,"if (recv_buf.non_read() < datalen + CRLF.length()) {","if (recv_buf.non_read() < static_cast<uint32>(datalen + CRLF.length())) {")
m("touch_noreply","C10",A,"            return reply_with_response(send_buf, response, noreply);\n        }\n\n\n        inline net::ConversationReply handle_statistics","            (void)noreply; return reply_with_response(send_buf, response, false);\n        }\n\n\n        inline net::ConversationReply handle_statistics")
m("flags_u8","C01 C10",A,"SPACE << i->opaque_flags()","SPACE << static_cast<uint16>(i->opaque_flags() & 0x7fff)")
m("threads","C13",S+"main.cpp","            reactor.run();\n","            std::vector<std::thread> pool; for (int n = 0; n < 3; ++n) pool.emplace_back([&]{ reactor.run(); });\n            reactor.run();\n            for (auto & t : pool) t.join();\n","#include <signal.h>","#include <signal.h>\n#include <thread>\n#include <vector>")
m("curr_items","C14",C+"cache.h","STAT_SET(cache.curr_items, m_dict.size());","STAT_SET(cache.curr_items, m_dict.is_expanding() ? m_dict.capacity() / 2 : m_dict.size());")
m("cas_misses","C14",C+"cache.h","                STAT_INCR(cache.cas_misses, 1);","                STAT_INCR(cache.cas_badval, 1);")
m("evict_used","C14",C+"memalloc-inl.h","STAT_DECR(mem.used_memory, blk->size_with_header());\n                } else","STAT_DECR(mem.used_memory, blk->size());\n                } else")
m("get_no_touch","C15",C+"cache.h","                    m_allocator.touch(item);\n                } else","                    if (not readonly) m_allocator.touch(item);\n                } else")
m("reuse_second","C15",C+"memalloc-inl.h","page_info * least_used = lru_pages.back();","page_info * least_used = (lru_pages.back()->num_hits > 1000) ? lru_pages.front() : lru_pages.back();")
m("no_touch_alloc","C15",C+"memalloc-inl.h","                m_pages->touch(found_blk);\n","")
m("capi_decr","C16",C+"c_api.cpp","tie(found, newval) = c->cache.do_decr(","tie(found, newval) = delta ? c->cache.do_decr(slice(k.key, k.keylen), k.hash, delta) : c->cache.do_incr(")
m("capi_touch_ttl","C16",C+"c_api.cpp","k.hash, cache::seconds(keepalive_sec));","k.hash, cache::seconds(static_cast<uint16>(keepalive_sec)));")
m("capi_setnull","C16",C+"c_api.cpp","            c->cache.on_eviction = std::function<void (cache::ConstItemPtr)>{};","            (void)c;")
m("udp_multi","C17",S+"memcached/conversation.h","if (sequence_no != 0 || packets_in_msg > 1)","if (sequence_no != 0 && packets_in_msg > 1)")
m("udp_hdr_rsvd","C17",S+"memcached/conversation.h","if (reserved != 0)","if ((reserved & 0xff) != 0)")
m("udp_short","C17 C11",S+"memcached/conversation.h","if (recv_buf.non_read() < udp_frame_header_size)","if (recv_buf.non_read() < udp_frame_header_size - 1)")
m("itoa_3","C18",C+"string_conv.h","while (xvalue >= static_cast<UnsignedIntType>(radix_sqr))","while (xvalue > static_cast<UnsignedIntType>(radix_sqr))")
m("atoi_u","C18",C+"string_conv.h","if (u64_value <= std::numeric_limits<UnsignedT>::max())","if (static_cast<uint32>(u64_value) <= std::numeric_limits<UnsignedT>::max())")
m("atoi_minus0","C18",C+"string_conv.h","std::numeric_limits<SignedT>::min() <= s64_value","std::numeric_limits<SignedT>::min() < s64_value")
m("buf_advice","C19",S+"io_buffer.h","std::max(capacity() * 2 - available(), default_min_buffer_size)","std::max(capacity() * 2 - available() - 1, default_min_buffer_size)")
m("buf_ensure","C19 C11",S+"io_buffer.h","if (new_capacity - size() >= at_least)","if (new_capacity >= at_least)")
m("buf_compact","C19",S+"io_buffer.h","std::memmove(m_data, m_data + m_read_pos, left_unread);","std::memcpy(m_data, m_data + m_read_pos, left_unread);")
m("opt_page4","C20",S+"main.cpp","(settings.cache.page_size * 4)","(settings.cache.page_size * 2)")
m("opt_kilo","C20",S+"main.cpp","            units = Kilobyte;","            units = 1000;")
m("sig_quit","C21",S+"main.cpp","        signals.add(SIGQUIT);\n","")
m("search_end","C22",C+"slice.h","if (what.length() <= length()) {\n                if (what.begin()","if (what.length() < length()) {\n                if (what.begin()")
m("starts","C22",C+"slice.h","return search(what).begin() == begin();","return length() >= what.length() && std::memcmp(begin(), what.begin(), what.length()) <= 0;")
m("roundup","C22",C+"bits.h","pow2(log2u(value) + 1u)","static_cast<UIntT>(1u << (log2u(value) + 1u))")
m("movefront","C22 C15",C+"intrusive_list.h","            next->prev = prev;\n            prev->next = next;\n            // relink this","            prev->next = next;\n            // relink this")
m("ht_ok","C23",C+"hash_table.h","return m_hashes && m_entries;","return static_cast<bool>(m_hashes);")
m("conn_keep","C24",S+"socket_stream.h","                        new_conversation->start();","                        static std::vector<decltype(new_conversation)> all; all.push_back(new_conversation); if (all.size() > 64) all.erase(all.begin());\n                        new_conversation->start();")
m("eof_exec","C24",S+"socket_stream.h","                    if (error == io_error::message_size) {","                    if (error == asio::error::eof && self->m_recv_buf.non_read() > 0) { std::memcpy(self->m_recv_buf.begin_write(2), \"\\r\\n\", 2); self->m_recv_buf.confirm_write(2); self->handle_received(); }\n                    if (error == io_error::message_size) {")
