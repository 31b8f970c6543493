G = "src/generic_impl/gap_buffer.rs"
R = "src/generic_impl/rope.rs"
O = "src/generic_impl/ord.rs"
LF = "src/generic_impl/len_finder.rs"
L = "src/lib.rs"
IT = "src/iter.rs"
CASES = [
    (["C11"], "same", "gap-del-start", [(G, "self.shift_at(end);\n        self.gap_start = start as u16;", "self.shift_at(start);\n        self.gap_start = start as u16;")]),
    (["C11"], "bug", "gap-shift-less", [(G, "gap_end - gap_move);", "gap_end - gap_move.min(gap_start));".replace(".min(gap_start)", " + 1"))]),
    (["C11"], "bug", "gap-slice-min", [(G, "&l[start..end.min(l.len())]", "&l[start..l.len()]")]),
    (["C11"], "bug", "gap-excl", [(G, "Excluded(x) => x + 1,\n            std::ops::Bound::Unbounded => 0,\n        };\n        let mut end", "Excluded(x) => *x,\n            std::ops::Bound::Unbounded => 0,\n        };\n        let mut end")]),
    (["C11"], "bug", "gap-pair-order", [(G, "[index..index + left.len()].copy_from_slice(left);\n        self.buffer[index + left.len()..index + len].copy_from_slice(right);", "[index..index + right.len()].copy_from_slice(right);\n        self.buffer[index + right.len()..index + len].copy_from_slice(left);")]),
    (["C11"], "bug", "gap-tryinsert-late", [(G, "if self.len() + elem.len() > MAX_STRING_SIZE {\n            return Err(elem);", "if elem.len() > MAX_STRING_SIZE {\n            return Err(elem);")]),
    (["C11"], "bug", "gap-reject-shift", [(G, "        if (self.gap_len as usize) < bytes.len() {\n            return Err(());\n        }\n\n        self.shift_at(index);", "        self.shift_at(index);\n        if (self.gap_len as usize) < bytes.len() {\n            self.gap_len = 0;\n            return Err(());\n        }\n")]),
    (["C11"], "same", "gap-reject-shift-ok", [(G, "        if (self.gap_len as usize) < bytes.len() {\n            return Err(());\n        }\n\n        self.shift_at(index);", "        self.shift_at(index);\n        if (self.gap_len as usize) < bytes.len() {\n            return Err(());\n        }\n")]),
    (["C11"], "bug", "gap-fromstr", [(G, "            i += MAX_STRING_SIZE;", "            i += gb.capacity() + 1;")]),
    (["C11"], "same", "gap-fromstr-len", [(G, "            i += MAX_STRING_SIZE;", "            i += gb.len();")]),
    (["C11"], "same", "gap-helper", [(G, "        self.gap_start += bytes.len() as u16;\n        self.gap_len -= bytes.len() as u16;\n        Ok(())\n    }\n", "        self.grow(bytes.len());\n        Ok(())\n    }\n\n    fn grow(&mut self, n: usize) {\n        self.gap_len -= n as u16;\n        self.gap_start += n as u16;\n    }\n")]),
    (["C11"], "same", "gap-split-if", [(G, "        let len = end - start;\n        self.shift_at(end);\n        self.gap_start = start as u16;\n        self.gap_len += len as u16;", "        self.shift_at(start);\n        self.gap_len += (end - start) as u16;")]),
    (["C11"], "same", "gap-loop-copy", [(G, "        self.buffer[index..index + bytes.len()].copy_from_slice(bytes);", "        for (i, b) in bytes.iter().enumerate() {\n            self.buffer[index + i] = *b;\n        }")]),
    (["C11"], "same", "gap-match-if", [(G, "        match index.cmp(&gap_start) {\n            std::cmp::Ordering::Equal => {}\n            std::cmp::Ordering::Less => {", "        if index < gap_start {"), (G, "            std::cmp::Ordering::Greater => {\n                let gap_move", "            else if index > gap_start {\n                let gap_move"), (G, "self.gap_start += gap_move as u16;\n            }\n        }\n", "self.gap_start += gap_move as u16;\n            }\n")]),

    (["C08"], "bug", "lf-ge", [(LF, "if self.left >= len {", "if self.left > len {")]),
    (["C08"], "bug", "lf-confirm", [(LF, "(self.left, self.left < elem.rle_len())", "(self.left, self.left <= elem.rle_len())")]),
    (["C08"], "bug", "lf-missing", [(LF, "self.left = last_left;\n", "let last_left = self.left;\n")]),
    (["C08"], "bug", "lf-slot", [(LF, "self.slot = child_caches.len() as u8 - 1;", "self.slot = child_caches.len() as u8;")]),
    (["C08"], "bug", "lf-parent", [(LF, "child_caches.last().unwrap().arena.unwrap()", "child_caches.first().unwrap().arena.unwrap()")]),
    (["C08"], "same", "lf-while", [(LF, "for (i, cache) in child_caches.iter().enumerate() {", "let mut i = 0;\n        while i < child_caches.len() {\n            let cache = &child_caches[i];"), (LF, "self.left -= len;\n            } else {", "self.left -= len;\n                i += 1;\n            } else {")]),
    (["C08"], "same", "lf-lt", [(LF, """            if self.left >= len {
                last_left = self.left;
                self.left -= len;
            } else {""", """            if self.left < len {"""), (LF, """                return FindResult::new_found(i, self.left);
            }
""", """                return FindResult::new_found(i, self.left);
            }
            last_left = self.left;
            self.left -= len;
""")]),
    (["C08"], "same", "lf-helper", [(LF, "        self.left = last_left;\n        if is_internal {", "        self.left = last_left;\n        self.mark_last(child_caches, is_internal);\n        return FindResult::new_missing(child_caches.len() - 1, last_left);\n    }\n\n    #[inline(always)]\n    fn confirm_elem(\n        &mut self,\n        _: &Self::QueryArg,\n        elem: &<B as BTreeTrait>::Elem,\n    ) -> (usize, bool) {\n        (self.left, self.left < elem.rle_len())\n    }\n}\nimpl LengthFinder {\n    fn mark_last<B: BTreeTrait>(&mut self, child_caches: &[crate::Child<B>], is_internal: bool) {\n        if is_internal {"),
       (LF, """        FindResult::new_missing(child_caches.len() - 1, last_left)
    }

    #[inline(always)]
    fn confirm_elem(
        &mut self,
        _: &Self::QueryArg,
        elem: &<B as BTreeTrait>::Elem,
    ) -> (usize, bool) {
        (self.left, self.left < elem.rle_len())
    }
""", "    }\n")]),
    (["C09"], "bug", "ord-le", [(O, "if target < min {", "if target <= min {")]),
    (["C09"], "bug", "ord-swap", [(O, "} else if target > max {", "} else if target > min {")]),
    (["C09"], "same", "ord-off", [(O, "if i == child_caches.len() { 1 } else { 0 }", "if i + 1 >= child_caches.len() { 1 } else { 0 }")]),
    (["C09"], "bug", "ord-min", [(O, "i.min(child_caches.len() - 1),", "i.saturating_sub(1),")]),
    (["C09"], "bug", "ord-confirm", [(O, "Ordering::Less => (0, false),", "Ordering::Less => (1, false),")]),
    (["C09"], "same", "ord-cmp", [(O, """            if target < min {
                core::cmp::Ordering::Greater
            } else if target > max {
                core::cmp::Ordering::Less
            } else {
                core::cmp::Ordering::Equal
            }""", """            if max < target {
                core::cmp::Ordering::Less
            } else if min <= target {
                core::cmp::Ordering::Equal
            } else {
                core::cmp::Ordering::Greater
            }""")]),
    (["C09"], "same", "ord-err", [(O, """            Err(i) => FindResult::new_missing(
                i.min(child_caches.len() - 1),
                if i == child_caches.len() { 1 } else { 0 },
            ),""", """            Err(i) if i == child_caches.len() => FindResult::new_missing(i - 1, 1),
            Err(i) => FindResult::new_missing(i, 0),""")]),
    (["C15"], "bug", "sum-sub", [(R, "cache_lhs - cache_rhs", "cache_rhs - cache_lhs")]),
    (["C15"], "bug", "ord-sum", [(O, "caches[caches.len() - 1].cache.as_ref().unwrap().1.clone()", "caches[caches.len() - 1].cache.as_ref().unwrap().0.clone()")]),
    (["C15"], "same", "ord-sum-last", [(O, "caches[caches.len() - 1].cache", "caches.last().unwrap().cache")]),
]
