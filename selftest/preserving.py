"""Behaviour-preserving edits; none may leave an obligation refuted."""
from selftest.breaking import CO, CT, DE, GE, MO, SC

EDITS = {
    'encode-list': (['struct encode'], [(CO, 'data = b""\n', 'data = b"" + b""\n')]),
    'append-helper': (['scalar array operations'], [
        (CT, 'class bound_scalar_array(base_array):\n    __slots__ = []\n', 'class bound_scalar_array(base_array):\n    __slots__ = []\n\n    def _room(self, n):\n        if self._max_len and len(self) + n > self._max_len:\n            raise ProphyError("exceeded array limit")\n'),
        (CT, 'value = self._TYPE._check(value)\n        if self._max_len and len(self) == self._max_len:\n            raise ProphyError("exceeded array limit")\n        self._values.append', 'value = self._TYPE._check(value)\n        self._room(1)\n        self._values.append')]),
    'append-as-extend': (['scalar array operations'], [(CT, 'self._values.append(value)', 'self._values += [value]')]),
    'append-order': (['scalar array operations'], [
        (CT, 'value = self._TYPE._check(value)\n        if self._max_len and len(self) == self._max_len:\n            raise ProphyError("exceeded array limit")\n        self._values.append', 'if self._max_len and len(self) == self._max_len:\n            raise ProphyError("exceeded array limit")\n        value = self._TYPE._check(value)\n        self._values.append')]),
    'checked-loop': (['scalar array operations'], [(CT, 'return [tp._check(value) for value in values]', 'result = []\n    for value in values:\n        result.append(tp._check(value))\n    return result')]),
    'extend-comp': (['composite array operations', 'element copy'], [
        (CT, 'for message in elem_seq:\n            new_element = composite_cls()\n            new_element.copy_from(message)\n            new_elements.append(new_element)\n        self._values.extend(new_elements)', 'def duplicate(message):\n            new_element = composite_cls()\n            new_element.copy_from(message)\n            return new_element\n        self._values.extend([duplicate(x) for x in elem_seq])')]),
    'getter-in': (['struct fields'], [(GE, 'value = self._fields.get(descriptor_field.name)\n            if value is None:\n                value = descriptor_field.type()\n                self._fields[descriptor_field.name] = value\n            return value', 'if descriptor_field.name not in self._fields:\n                self._fields[descriptor_field.name] = descriptor_field.type()\n            return self._fields[descriptor_field.name]')]),
    'composite-if-none': (['struct fields'], [(GE, 'if value:\n                    return value\n                else:\n                    return self._fields.setdefault(descriptor_field.name, descriptor_field.type())', 'if value is None:\n                    value = self._fields[descriptor_field.name] = descriptor_field.type()\n                return value')]),
    'switch-two-ifs': (['union discriminator'], [(GE, 'if discriminator_name_or_value in (field.name, field.discriminator):', 'if discriminator_name_or_value == field.name or discriminator_name_or_value == field.discriminator:')]),
    'copy-names': (['struct copy'], [(CO, 'for name, rhs in other._fields.items():\n            self.set_field(name, rhs)', 'for name in other._fields:\n            self.set_field(name, other._fields[name])')]),
    'copy-index': (['field copy'], [(CO, 'for lhs_elem, rhs_elem in zip(lhs, rhs):\n                        lhs_elem.copy_from(rhs_elem)', 'for i, lhs_elem in enumerate(lhs):\n                        lhs_elem.copy_from(rhs[i])')]),
    'shift-pow': (['expression actions of calc'], [('prophyc/calc.py', 'value << min(count, MAX_BITS + 1)', 'value * (1 << min(count, MAX_BITS + 1))')]),
    'binop-table': (['expression actions of calc'], [('prophyc/calc.py', "elif p[2] == '-':\n            p[0] = p[1] - p[3]", "elif p[2] == '-':\n            p[0] = -(p[3] - p[1])")]),
    'magnitude-abs': (['expression actions of calc'], [('prophyc/calc.py', 'if value.bit_length() > MAX_BITS:', 'if abs(value) >= 1 << MAX_BITS:')]),
    'padding-form': (['padding'], [(CO, 'remainer = number % alignment\n    return (alignment - remainer) % alignment', 'return -number % alignment')]),
    'decode-local': (['struct decode'], [(CO, 'pos += self._get_padding_size(pos, self._ALIGNMENT)\n\n        if terminal', 'tail = self._get_padding_size(pos, self._ALIGNMENT)\n        pos = pos + tail\n\n        if terminal')]),
    'scalar-flip': (['scalars'], [(SC, 'if not min_ <= value <= max_:', 'if value < min_ or value > max_:')]),
    'optional-branches': (['optional'], [(DE, 'if value is None:\n        return b"\\x00" * type_._OPTIONAL_SIZE', 'if not value is not None:\n        return type_._OPTIONAL_SIZE * b"\\x00"')]),

    'model-neg-mod': (['sizes of struct members and structs'], [(MO, 'padding = (member.alignment - byte_size % member.alignment) % member.alignment', 'padding = -byte_size % member.alignment')]),
    'model-helper': (['sizes of struct members and structs'], [
        (MO, '    def evaluate_struct_size(node_):\n', '    def distance(offset, alignment):\n        return (alignment - offset % alignment) % alignment\n\n    def evaluate_struct_size(node_):\n'),
        (MO, 'padding = (member.alignment - byte_size % member.alignment) % member.alignment', 'padding = distance(byte_size, member.alignment)'),
        (MO, 'padding = (alignment - byte_size % alignment) % alignment', 'padding = distance(byte_size, alignment)')]),
    'model-loop-for-comp': (['sizes of struct members and structs'], [(MO, '[evaluate_array_and_optional_size(mem) for mem in node.members]', 'for mem in node.members:\n                    evaluate_array_and_optional_size(mem)')]),
    'model-order': (['sizes of struct members and structs'], [(MO, 'byte_size += member.byte_size + padding\n            if is_member', 'byte_size += padding\n            byte_size += member.byte_size\n            if is_member')]),
    'model-floordiv': (['sizes of unions'], [(MO, 'int((node_.byte_size + node_.alignment - 1) / node_.alignment) * node_.alignment', '(node_.byte_size + node_.alignment - 1) // node_.alignment * node_.alignment')]),
    'model-union-local': (['sizes of unions'], [(MO, 'node_.byte_size = (node_.members and max(x.byte_size for x in node_.members) or 0) + node_.alignment\n        node_.byte_size = int((node_.byte_size + node_.alignment - 1)', 'natural = (node_.members and max(x.byte_size for x in node_.members) or 0) + node_.alignment\n        node_.byte_size = int((natural + node_.alignment - 1)')]),
    'model-low-recursive': (['kinds of members'], [(MO, 'while isinstance(lowermost, Typedef):\n            lowermost = lowermost.definition\n        return lowermost', 'if isinstance(lowermost, Typedef):\n            return lowermost.lowermost_typedef\n        return lowermost')]),
    'model-kind-order': (['kinds of structs'], [(MO, 'if isinstance(self, Struct):\n            if self.members:\n', 'if isinstance(self, Struct) and self.members:\n            if True:\n')]),
    'model-enumerate': (['sizes of struct members and structs'], [(MO, 'for part in [x for x in parts][1:]:\n            part[0].alignment = max(part[0].alignment, max(x.alignment for x in part))', 'for i, part in enumerate(parts):\n            if i:\n                part[0].alignment = max(x.alignment for x in part)')]),
}


# generated C++
_C3 = ['C++ %s: enc dec public' % g for g in ('mixed with a greedy tail', 'limited arrays of composites', 'optionals of composites', 'dynamic arrays', 'external counters', 'scalars', 'greedy arrays', 'unions', 'arrays of dynamic structs')]
_C5 = ['C++ %s: enclen size public' % g for g in ('mixed', 'several dynamic members', 'limited arrays', 'dynamic structs', 'greedy arrays', 'optionals of composites', 'unions', 'arrays of dynamic structs')]
_C7 = ['C++ %s: enclen declen public' % g for g in ('mixed', 'limited arrays', 'external counters', 'greedy arrays', 'dynamic arrays', 'arrays of dynamic structs', 'unions')]
_H = 'prophy_cpp/include/prophy/'
_G = 'prophyc/generators/cpp_full.py'

EDITS.update({
    'cpp-encoder-for': (_C3, [(_H + 'detail/encoder.hpp', """        while (n)
        {
            encode_int<E>(data, *x);
            data += sizeof(T);
            ++x;
            --n;
        }
        return data;
""", """        for (size_t i = 0; i < n; ++i)
        {
            encode_int<E>(data + i * sizeof(T), x[i]);
        }
        return data + n * sizeof(T);
""")]),
    'cpp-decode-int-or': (_C3, [(_H + 'detail/decoder.hpp', """    x = uint32_t(pos[0]) << 24;
    x |= uint32_t(pos[1]) << 16;
    x |= uint32_t(pos[2]) << 8;
    x |= uint32_t(pos[3]) << 0;
""", """    uint32_t acc = 0;
    for (size_t i = 0; i < 4; ++i)
    {
        acc = (acc << 8) | pos[i];
    }
    x = acc;
""")]),
    'cpp-encode-int-shift': (_C3, [(_H + 'detail/encoder.hpp', """    out[0] = (in & 0x000000FF) >> 0;
    out[1] = (in & 0x0000FF00) >> 8;
    out[2] = (in & 0x00FF0000) >> 16;
    out[3] = (in & 0xFF000000) >> 24;
""", """    for (int i = 0; i != 4; ++i)
    {
        out[i] = uint8_t(in >> (8 * i));
    }
""")]),
    'cpp-decode-int-memcpy': (_C3, [(_H + 'detail/decoder.hpp', """    x = uint64_t(pos[0]) << 0;
    x |= uint64_t(pos[1]) << 8;
    x |= uint64_t(pos[2]) << 16;
    x |= uint64_t(pos[3]) << 24;
    x |= uint64_t(pos[4]) << 32;
    x |= uint64_t(pos[5]) << 40;
    x |= uint64_t(pos[6]) << 48;
    x |= uint64_t(pos[7]) << 56;
""", """    __builtin_memcpy(&x, pos, sizeof(x));
""")]),
    'cpp-encode-int-bswap': (_C3, [(_H + 'detail/encoder.hpp', """    out[0] = (in & 0xFF000000) >> 24;
    out[1] = (in & 0x00FF0000) >> 16;
    out[2] = (in & 0x0000FF00) >> 8;
    out[3] = (in & 0x000000FF) >> 0;
""", """    uint32_t be = __builtin_bswap32(in);
    __builtin_memcpy(out, &be, sizeof(be));
""")]),
    'cpp-decoder-divide': (_C7 + _C3, [(_H + 'detail/decoder.hpp', "if (size_t(end - pos) < n * sizeof(T))", "if (size_t(end - pos) / sizeof(T) < n)")]),
    'cpp-decoder-last': (_C7 + _C3, [(_H + 'detail/decoder.hpp', """        while (n)
        {
            decode_int<E>(*x, pos);
            pos += sizeof(T);
            ++x;
            --n;
        }
""", """        for (T* last = x + n; x != last; ++x)
        {
            decode_int<E>(*x, pos);
            pos += sizeof(T);
        }
""")]),
    'cpp-resize-order': (_C7 + _C3, [(_H + 'detail/decoder.hpp', """    CT n;
    size_t available = end - pos;
    if (!decoder<E, CT>::decode(n, pos, end))
    {
        return false;
    }
    if (size_t(n) > max || size_t(n) > available)
    {
        return false;
    }
    v.resize(n);
""", """    const size_t available = size_t(end - pos);
    CT raw;
    if (!decoder<E, CT>::decode(raw, pos, end))
    {
        return false;
    }
    const size_t n = size_t(raw);
    if (n > available)
    {
        return false;
    }
    if (n > max)
    {
        return false;
    }
    v.resize(n);
""")]),
    'cpp-align-pad': (_C7 + _C3, [(_H + 'detail/decoder.hpp', """    const uint8_t* aligned = align<A>(pos);
    if (aligned > end)
    {
        return false;
    }
    pos = aligned;
    return true;
""", """    const size_t over = reinterpret_cast<uintptr_t>(pos) % A;
    return do_decode_advance(over ? A - over : 0, pos, end);
""")]),
    'cpp-align-div': (_C3, [(_H + 'detail/align.hpp', """    enum { mask = Alignment - 1 };
    return reinterpret_cast<uint8_t*>((reinterpret_cast<uintptr_t>(ptr) + mask) & ~uintptr_t(mask));
""", """    return reinterpret_cast<uint8_t*>((reinterpret_cast<uintptr_t>(ptr) + Alignment - 1) / Alignment * Alignment);
""")]),
    'cpp-message-early': (_C7, [(_H + 'detail/message.hpp', """        bool success = message_impl<T>::template decode<E>(*static_cast<T*>(this), data_, data_ + size);
        size_t bytes_read = data_ - static_cast<const uint8_t*>(data);
        return success && (bytes_read == size);
""", """        const uint8_t* const end = data_ + size;
        if (!message_impl<T>::template decode<E>(*static_cast<T*>(this), data_, end))
        {
            return false;
        }
        return data_ == end;
""")]),
    'cpp-vector-via-pointer': (_C3, [(_H + 'detail/message.hpp', """        message_impl<T>::template encode<E>(*static_cast<const T*>(this), data.data());
        return data;
""", """        encode<E>(data.data());
        return data;
""")]),
    'cpp-native-little': (_C3, [(_H + 'detail/message.hpp', "return encode<native>(data);", "return encode<little>(data);")]),
    'cpp-optional-early': (_C3 + _C5, [(_H + 'detail/encoder.hpp', """    data = do_encode<E>(data, uint32_t(bool(x)));
    data = data + padding;
    if (x)
    {
        return do_encode<E>(data, *x);
    }
    return data + codec_traits<T>::size;
""", """    if (!x)
    {
        return do_encode<E>(data, uint32_t(0)) + padding + codec_traits<T>::size;
    }
    return do_encode<E>(do_encode<E>(data, uint32_t(1)) + padding, *x);
""")]),
    'cpp-nearest-size': (_C5, [(_G, "'prophy::detail::nearest<{0}>(\\n'.format(abs(m.padding)) +", "'(({0} - 1) & -'.format(abs(m.padding)) + '(' + ' + '.join(elems) + ')) + (\\n' +")]),
    'cpp-size-loop': (_C5, [(_H + 'detail/byte_size.hpp', "return x + y.get_byte_size();", "x += y.get_byte_size();\n        return x;")]),
    'cpp-limited-in-place': (_C3 + _C5, [(_G, "text += ('do_encode<E>(pos, x.{0}.data(), {2}(std::min(x.{0}.size(), size_t({1}))));\\n'", "text += ('do_encode<E>(pos, x.{0}.data(), std::min<size_t>({1}, x.{0}.size()));\\n'")]),
    'cpp-decode-seq': (_C7 + _C3, [(_G, "text.append('do_decode_in_place<E>(x.{0}.data(), x.{0}.size(), pos, end)'.format(m.name))\n            text.append('do_decode_advance({0}, pos, end)'.format(m.byte_size))", "text.append('size_t(end - pos) >= {0}'.format(m.byte_size))\n            text.append('do_decode_in_place<E>(x.{0}.data(), x.{0}.size(), pos, end)'.format(m.name))\n            text.append('do_decode_advance({0}, pos, end)'.format(m.byte_size))")]),
})


# raw C++
_C9 = ['raw C++ ' + g for g in ('several dynamic members', 'several arrays of one counter', 'limited arrays', 'dynamic arrays', 'arrays of dynamic structs', 'greedy tails', 'external counters', 'optionals', 'scalars', 'unions')]
_R = 'prophyc/generators/cpp.py'
EDITS.update({
    'raw-swap-builtin': (_C9, [(_H + 'prophy.hpp', "    *in = ((*in << 8) & 0xFF00FF00) | ((*in >> 8) & 0x00FF00FF);\n    *in = (*in << 16) | (*in >> 16);\n", "    *in = __builtin_bswap32(*in);\n")]),
    'raw-swap-local': (_C9, [(_H + 'prophy.hpp', "    *in = (*in << 8) | (*in >> 8);\n", "    const uint16_t x = *in;\n    *in = uint16_t((x >> 8) | (x << 8));\n")]),
    'raw-fixed-for': (_C9, [(_H + 'detail/prophy.hpp', """    while (n--)
    {
        swap(first);
        ++first;
    }
    return first;
""", """    for (size_t i = 0; i < n; ++i)
    {
        swap(first + i);
    }
    return first + n;
""")]),
    'raw-dynamic-for': (_C9, [(_H + 'detail/prophy.hpp', """    while (n--)
    {
        first = swap(first);
    }
""", """    for (; n != 0; --n)
    {
        first = swap(first);
    }
""")]),
    'raw-cast': (_C9, [(_H + 'prophy.hpp', "    return detail::align_ptr(static_cast<To>(static_cast<void*>(from)));", "    To raw = reinterpret_cast<To>(from);\n    return detail::align_ptr(raw);")]),
    'raw-align': (_C9, [(_H + 'detail/align.hpp', "    return reinterpret_cast<Tp*>((reinterpret_cast<uintptr_t>(ptr) + mask) & ~uintptr_t(mask));", "    const uintptr_t x = reinterpret_cast<uintptr_t>(ptr);\n    const uintptr_t over = x & uintptr_t(mask);\n    return reinterpret_cast<Tp*>(over ? x - over + uintptr_t(mask) + 1 : x);")]),
})


# raw C++ declarations
_C8 = ['raw C++ members', 'raw C++ paddings', 'raw C++ union definitions', 'raw C++ structs', 'raw C++ packing']
EDITS.update({
    'lay-pad-loop': (_C8, [(_R, "        return ''.join(self._gen_padding_var(type_) for val, type_ in self.PADDINGS if padding & val)", "        text = ''\n        for val, type_ in self.PADDINGS:\n            if padding & val:\n                text += self._gen_padding_var(type_)\n        return text")]),
    'lay-value-padding-8': (_C8, [(_R, "    return max((alignment or 0) - model.DISC_SIZE, 0)", "    return 4 if alignment == 8 else 0")]),
    'lay-pad-order': (_C8, [(_R, "        (1, 'uint8_t'),\n        (2, 'uint16_t'),\n        (4, 'uint32_t')", "        (4, 'uint32_t'),\n        (2, 'uint16_t'),\n        (1, 'uint8_t')")]),
    'lay-partition-loop': (_C8, [('prophyc/model.py', "    for member in members[:-1]:\n        current.append(member)\n        if member.kind == Kind.DYNAMIC or member.is_dynamic:\n            current = []\n            parts.append(current)\n    if members:\n        current.append(members[-1])\n", "    ends = False\n    for member in members:\n        if ends:\n            current = []\n            parts.append(current)\n        current.append(member)\n        ends = member.kind == Kind.DYNAMIC or member.is_dynamic\n")]),
})


# text
_C18 = ['text C++ ' + g for g in ('dynamic arrays', 'arrays of dynamic structs', 'limited arrays', 'optionals', 'bytes', 'scalars', 'unions', 'mixed')] + ['text parts', 'text in Python']
_PR = _H + 'detail/printer.hpp'
_CF = 'prophyc/generators/cpp_full.py'
EDITS.update({
    'txt-pieces': (_C18, [(_PR, "        out << indent_t(indent) << name << \": \" << x << '\\n';", "        out << indent_t(indent) << name << ':' << ' ';\n        out << x << \"\\n\";")]),
    'txt-for': (_C18, [(_PR, """    while (bytes.second)
    {
        print_byte(out, *bytes.first);
        ++bytes.first;
        --bytes.second;
    }
""", """    for (size_t i = 0; i < bytes.second; ++i)
    {
        print_byte(out, bytes.first[i]);
    }
""")]),
    'txt-indent-for': (_C18, [(_PR, """    while (indent.level)
    {
        out << "  ";
        --indent.level;
    }
""", """    for (int i = 0; i < indent.level; ++i)
    {
        out << ' ' << ' ';
    }
""")]),
    'txt-byte-if': (_C18, [(_PR, "        case 9: out << \"\\\\t\"; return;\n", ""), (_PR, "    switch (x)\n    {\n", "    if (x == 9)\n    {\n        out << '\\\\' << 't';\n        return;\n    }\n    switch (x)\n    {\n")]),
})
_PT, _PP = 'prophyc/patch.py', 'prophyc/parsers/prophy.py'
_PR17 = ['patch rules', 'patch rules of a message', 'patched messages']
_RU = ['types of counters', 'constants and their uses', 'rules of struct members', 'struct definitions', 'rules of union arms', 'forms of struct members', 'types and names', 'array extents', 'reported errors']
_FIND = """    i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
    if not member:
        raise Exception("Member not found: %s %s" % (node.name, patch_))
"""
_HELP = """def _find(node, patch_, name):
    for i, member in enumerate(node.members):
        if member.name == name:
            return i, member
    raise Exception("Member not found: %s %s" % (node.name, patch_))


def _is_int(s):"""
EDITS.update({
    'patch-helper': (_PR17, [(_PT, _FIND, "    i, member = _find(node, patch_, name)\n")] * 6 + [(_PT, "def _is_int(s):", _HELP)]),
    'patch-while': (_PR17, [(_PT, _FIND, """    i = 0
    while i < len(node.members) and node.members[i].name != name:
        i += 1
    if i == len(node.members):
        raise Exception("Member not found: %s %s" % (node.name, patch_))
""")] * 2),
    'patch-any': (_PR17, [(_PT, "    sizer_found = len(tuple(x for x in node.members[:i] if x.name == len_array))\n", "    sizer_found = any(x.name == len_array for x in node.members[:i])\n")]),
    'patch-for': (_PR17, [(_PT, "    sizer_found = len(tuple(x for x in node.members[:i] if x.name == len_array))\n", "    sizer_found = False\n    for x in node.members[:i]:\n        if x.name == len_array:\n            sizer_found = True\n            break\n")]),
    'patch-pop': (_PR17, [(_PT, "    del node.members[i]", "    node.members.pop(i)")]),
    'patch-clamp': (_PR17, [(_PT, "    index = min(int(index), len(node.members))\n    index = max(index, -len(node.members))\n", "    count = len(node.members)\n    index = max(-count, min(count, int(index)))\n")]),
    'patch-range': (_PR17, [(_PT, "    for idx, node in enumerate(nodes):\n        patches", "    for idx in range(len(nodes)):\n        node = nodes[idx]\n        patches")]),
    'patch-in': (_PR17, [(_PT, "        patches = patch_dict.get(node.name)\n        if patches:\n            nodes[idx] = _apply(node, patches)", "        if node.name in patch_dict:\n            nodes[idx] = _apply(node, patch_dict[node.name])")]),
    'patch-struct-for': (_PR17, [(_PT, "    return model.Struct(node.name, [to_struct_member(mem) for mem in node.members])", "    members = []\n    for mem in node.members:\n        members.append(to_struct_member(mem))\n    return model.Struct(node.name, members)")]),
    'rule-helper': (_RU, [(_PP, "            if member.bound:\n                bound, _, __ = next(six.ifilter(lambda m: m[0].name == member.bound, members[:i]), (None, None, None))\n", "            if member.bound:\n                bound = None\n                for m, _, __ in members[:i]:\n                    if m.name == member.bound:\n                        bound = m\n                        break\n")]),
    'rule-names-list': (_RU, [(_PP, "        fieldnames = set()\n        for i,", "        fieldnames = []\n        for i,"), (_PP, "            fieldnames.add(name)\n            if", "            fieldnames.append(name)\n            if")]),
    'rule-merge': (_RU, [(_PP, """        for member, line, pos in members[:-1]:
            self._parser_check(
                not member.greedy and member.kind != model.Kind.UNLIMITED,
""", """        for i, (member, line, pos) in enumerate(members):
            self._parser_check(
                i == len(members) - 1 or not member.greedy and member.kind != model.Kind.UNLIMITED,
""")]),
    'rule-union-one': (_RU, [(_PP, """            fieldnames.add(member.name)
        discriminatorvalues = set()
        for member, line, pos in t[3]:
""", """            fieldnames.add(member.name)
"""), (_PP, "        fieldnames = set()\n        for member", "        fieldnames = set()\n        discriminatorvalues = set()\n        for member")]),
    'rule-sizer-loop': (_RU, [(_PP, """        if typename in {type_ + width for type_ in 'ui' for width in ['8', '16', '32', '64']}:
            return True
        elif typename in self.typedecls and isinstance(self.typedecls[typename], model.Typedef):
            return self._is_type_sizer_compatible(self.typedecls[typename].type_name)
        else:
            return False
""", """        while isinstance(self.typedecls.get(typename), model.Typedef):
            typename = self.typedecls[typename].type_name
        return typename in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64')
""")]),
    'rule-check-inline': (_RU, [(_PP, """            self._parser_check(
                not member.size or member.kind == model.Kind.FIXED,
                "fixed or limited array field '{}' of dynamic type".format(member.name),
                line, pos
            )
""", """            if member.size and member.kind != model.Kind.FIXED:
                self._parser_error("fixed or limited array field '{}' of dynamic type".format(member.name), line, pos)
""")]),
})
_FP = 'prophyc/file_processor.py'
_FI = ['search of included files', 'cache of processed files']
EDITS.update({
    'files-next': (_FI, [(_FP, """    for directory in dirs:
        path = os.path.join(directory, leaf)
        if os.path.isfile(path):
            return path
""", """    paths = (os.path.join(directory, leaf) for directory in dirs)
    return next((path for path in paths if os.path.isfile(path)), None)
""")]),
    'files-flag': (_FI, [(_FP, """        if os.path.isfile(path):
            return path
""", """        if os.path.isfile(path):
            break
    else:
        path = None
    return path
""")]),
    'files-try': (_FI, [(_FP, """        with swap_dir(self.include_dirs, os.path.dirname(path)):
            return self._process_file(path)
""", """        saved = self.include_dirs[0]
        self.include_dirs[0] = os.path.dirname(path)
        try:
            return self._process_file(path)
        finally:
            self.include_dirs[0] = saved
""")]),
    'files-bound': (_FI, [(_FP, "lambda leaf: self.process_leaf(leaf)", "self.process_leaf")]),
    'files-new-list': (_FI, [(_FP, """    try:
        dirs.insert(0, directory)
        yield dirs
    finally:
        dirs.pop(0)
""", """    dirs[0:0] = [directory]
    try:
        yield dirs
    finally:
        del dirs[0]
""")]),
    'files-get': (_FI, [(_FP, """        if abspath in self.files:
            if self.files[abspath] is None:
                raise CyclicIncludeError(path)
            return self.files[abspath]
        self.files[abspath] = None

        try:
            with codecs.open(path, 'r', encoding='utf-8') as f:
                content = f.read()
        except (EnvironmentError, UnicodeError) as e:
            raise FileReadError(path, e)
        result""", """        if abspath not in self.files:
            self.files[abspath] = None
            self.files[abspath] = self._parse(path)
        elif self.files[abspath] is None:
            raise CyclicIncludeError(path)
        return self.files[abspath]

    def _read(self, path):
        try:
            with codecs.open(path, 'r', encoding='utf-8') as f:
                return f.read()
        except (EnvironmentError, UnicodeError) as e:
            raise FileReadError(path, e)

    def _parse(self, path):
        content = self._read(path)
        result"""), (_FP, "        self.files[abspath] = result\n        return result", "        return result")]),
})

_SO = ['sort of definitions']
_MO = 'prophyc/model.py'
EDITS.update({
    'sort-rename': (_SO, [(_MO, "        node = nodes[index]\n        for dep in node.dependencies():\n            if dep not in known and dep in available:", "        current = nodes[index]\n        node = current\n        for dep in current.dependencies():\n            if dep in available and dep not in known:")]),
    'sort-slice': (_SO, [(_MO, "enumerate(islice(nodes, start_index, None), start_index)", "enumerate(nodes[start_index:], start_index)")]),
    'sort-two-steps': (_SO, [(_MO, "                nodes.insert(index, nodes.pop(found_index))\n                rotated.add(dep)", "                rotated.add(dep)\n                moved = nodes.pop(found_index)\n                nodes.insert(index, moved)")]),
    'sort-ifs': (_SO, [(_MO, "            if dep not in known and dep in available:\n", "            if dep in known:\n                continue\n            if dep in available:\n")]),
    'sort-return-false': (_SO, [(_MO, "        known.update(defined_names(node))\n\n    known", "        known.update(defined_names(node))\n        return False\n\n    known")]),
    'sort-while-true': (_SO, [(_MO, "        while model_sort_rotate():\n            pass", "        while True:\n            if not model_sort_rotate():\n                break")]),
    'sort-available-loop': (_SO, [(_MO, "    available = set(name for node in nodes for name in defined_names(node))", "    available = set()\n    for node in nodes:\n        available.update(defined_names(node))")]),
    'sort-is-none': (_SO, [(_MO, "                if not found_index or dep in rotated:", "                if found_index is None or dep in rotated:")]),
    'sort-two-errors': (_SO, [(_MO, "                if not found_index or dep in rotated:\n                    raise ModelError(\"Definition of '%s' is recursive.\" % dep)\n", "                if dep in rotated:\n                    raise ModelError(\"Definition of '%s' is recursive.\" % dep)\n                if not found_index:\n                    raise ModelError(\"Definition of '%s' is recursive.\" % dep)\n")]),
    'sort-helper': (_SO, [(_MO, "    def model_sort_rotate():\n", "    def move(target, source):\n        nodes.insert(target, nodes.pop(source))\n\n    def model_sort_rotate():\n"), (_MO, "                nodes.insert(index, nodes.pop(found_index))\n", "                move(index, found_index)\n")]),
})

_DE = ['dependencies of definitions']
EDITS.update({
    'dep-list': (_DE, [(_MO, "        for member in self.members:\n            for dependency in member.dependencies():\n                yield dependency", "        return [d for m in self.members for d in m.dependencies()]")]),
    'dep-collect': (_DE, [(_MO, "        for member in self.members:\n            for dependency in member.dependencies():\n                yield dependency", "        found = []\n        for member in self.members:\n            for dependency in member.dependencies():\n                found.append(dependency)\n        return found")]),
    'dep-set': (_DE, [(_MO, "        own = set(member.name for member in self.members)\n", "        own = {member.name for member in self.members}\n")]),
    'dep-filter': (_DE, [(_MO, "        for dependency in super(Enum, self).dependencies():\n            if dependency not in own:\n                yield dependency", "        return [x for x in super(Enum, self).dependencies() if x not in own]")]),
    'dep-skip': (_DE, [(_MO, "            if dependency not in own:\n                yield dependency", "            if dependency in own:\n                continue\n            yield dependency")]),
    'dep-order': (_DE, [(_MO, "        yield self.type_name\n        for symbol in _find_symbols(self.discriminator):\n            yield symbol\n", "        for symbol in _find_symbols(self.discriminator):\n            yield symbol\n        yield self.type_name\n")]),
    'dep-rename': (_DE, [(_MO, "            for symbol in _find_symbols(self.size):\n                yield symbol", "            names = _find_symbols(self.size)\n            for name in names:\n                yield name")]),
})

_IS = 'prophyc/parsers/isar.py'
_C17I = ['isar members', 'isar constants and typedefs', 'isar unions', 'isar enums', 'isar structs'] + [
    'isar arrays of a %s, optional %s' % (m, o) for m in ('struct', 'message') for o in ('absent', 'false', 'true')]
EDITS.update({
    'isar-decimal': (['isar enums'], [(_IS, '"0x{:X}".format(0x100000000 + int_value)', '"{}".format(2 ** 32 + int_value)')]),
    'isar-str': (['isar enums'], [(_IS, '"0x{:X}".format(0x100000000 + int_value)', 'str(2 ** 32 + int_value)')]),
    'isar-percent': (['isar enums'], [(_IS, '"0x{:X}".format(0x100000000 + int_value)', '"0x%X" % (0x100000000 + int_value)')]),
    'isar-early': (['isar enums', 'isar structs', 'isar unions'], [(_IS, "    if len(xml_elem):\n        members = []\n        for member in xml_elem:\n            members.append(model.UnionMember(", "    if not len(xml_elem):\n        return None\n    if True:\n        members = []\n        for member in xml_elem:\n            members.append(model.UnionMember(")]),
    'isar-extend': (['isar structs'], [(_IS, "            for sub_ in make_struct_members(member, last_member_array_is_dynamic):\n                members.append(sub_)\n", "            members.extend(make_struct_members(member, last_member_array_is_dynamic))\n")]),
    'isar-plus': (['isar structs'], [(_IS, "            for sub_ in make_struct_members(member, last_member_array_is_dynamic):\n                members.append(sub_)\n", "            members += make_struct_members(member, dynamic_array=last_member_array_is_dynamic)\n")]),
    'isar-flat': (['isar structs'], [(_IS, "        members = []\n        for member in xml_elem:\n            for sub_ in make_struct_members(member, last_member_array_is_dynamic):\n                members.append(sub_)\n", "        members = [sub_ for member in xml_elem for sub_ in make_struct_members(member, last_member_array_is_dynamic)]\n")]),
    'isar-union-comp': (['isar unions'], [(_IS, """        members = []
        for member in xml_elem:
            members.append(model.UnionMember(
                get_required(member, "name"),
                get_required(member, "type"),
                expand_operators(get_required(member, "discriminatorValue")),
                docstring=get_docstr(member),
            ))
""", """        members = [model.UnionMember(get_required(m, "name"), get_required(m, "type"), expand_operators(get_required(m, "discriminatorValue")),
                                     docstring=get_docstr(m)) for m in xml_elem]
""")]),
    'isar-starts': (_C17I, [(_IS, 'if sizer_name and "@" in sizer_name[0]:', 'if sizer_name and sizer_name.startswith("@"):')]),
    'isar-percent-name': (_C17I, [(_IS, 'xml_elem_name + "_len"', '"%s_len" % xml_elem_name')]),
    'isar-get': (_C17I, [(_IS, '"isVariableSize" in dimension.attrib', 'dimension.get("isVariableSize") is not None')]),
    'isar-list': (_C17I, [(_IS, 'bool(optional) and optional.lower() == "true"', 'optional is not None and optional.lower() == "true"')]),
    'isar-helper': (_C17I, [(_IS, 'def make_struct_members(', 'def _extent(dimension, name):\n    return expand_operators(dimension.get(name, "")) or None\n\n\ndef make_struct_members('),
                            (_IS, 'expand_operators(dimension.get("size", "")) or None', '_extent(dimension, "size")'), (_IS, 'expand_operators(dimension.get("size2", "")) or None', '_extent(dimension, "size2")')]),
})

_SC = ['definitions of an include', 'index of the types']
EDITS.update({
    'scope-list': (_SC[:1], [(_MO, "        for member in self.members:\n            if isinstance(member, Include):\n                for symbol in member.defined_symbols():\n                    yield symbol\n            else:\n                yield member\n", "        symbols = []\n        for member in self.members:\n            if not isinstance(member, Include):\n                symbols.append(member)\n            else:\n                symbols.extend(member.defined_symbols())\n        return symbols\n")]),
    'scope-again': (_SC[1:], [(_MO, "            if node_.name not in included:\n                included.add(node_.name)\n                for included_name, included_type in _make_types_index(node_.members):\n                    yield included_name, included_type\n", "            for pair in _make_types_index(node_.members):\n                yield pair\n")]),
    'scope-order': (_SC[1:], [(_MO, "        if isinstance(node_, Include):\n            if node_.name not in included:\n                included.add(node_.name)\n                for included_name, included_type in _make_types_index(node_.members):\n                    yield included_name, included_type\n        else:\n            yield node_.name, node_\n", "        if not isinstance(node_, Include):\n            yield node_.name, node_\n            continue\n        name = node_.name\n        if name in included:\n            continue\n        for item in _make_types_index(node_.members):\n            yield item\n        included.add(name)\n")]),
})

_EV, _GE = ['enum values'], 'prophy/generators.py'
EDITS.update({
    'enum-in': (_EV, [(_GE, "                value = name_to_int.get(value)\n                if value is None:\n", "                if value not in name_to_int:\n"),
                      (_GE, 'name in {}".format(cls.__name__))\n                return cls(value)', 'name in {}".format(cls.__name__))\n                return cls(name_to_int[value])')]),
    'enum-number-first': (_EV, [(_GE, "            elif isinstance(value, (int, long)):\n                if value not in int_to_name:\n", "            elif isinstance(value, (int, long)):\n                if int_to_name.get(value) is None:\n")]),
    'enum-index': (_EV, [(_GE, "{name: value for name, value in self._enumerators}", "{item[0]: item[1] for item in self._enumerators}")]),
    'enum-dict': (_EV, [(_GE, "{name: value for name, value in self._enumerators}", "dict(self._enumerators)")]),
    'enum-dict-pairs': (_EV, [(_GE, "{value: name for name, value in self._enumerators}", "dict((value, name) for name, value in self._enumerators)")]),
})

_ST = ['state of the evaluator', 'state of the parser']
EDITS.update({
    'state-copy': (_ST[:1], [('prophyc/calc.py', "        self.vars = vars_\n", "        self.vars = vars_.copy()\n")]),
    'state-shared': (_ST[1:], [('prophyc/parsers/prophy.py', "        parsers_stack = []\n        with allocate", "        with allocate"),
                               ('prophyc/parsers/prophy.py', "class ProphyParser(object):\n", "parsers_stack = []\n\n\nclass ProphyParser(object):\n")]),
    'state-once': (_ST[1:], [('prophyc/parsers/prophy.py', "        self._init_parse_data(parse_error_prefix)\n", "        self.parse_error_prefix = parse_error_prefix\n")]),
})

_NU, _MOD = ['numbers of the model'], 'prophyc/model.py'
EDITS.update({
    'num-always': (_NU, [(_MOD, "        val = constants.get(x)\n        return calc.eval(x, constants) if val is None or isinstance(val, six.string_types) else val\n", "        return calc.eval(x, constants)\n")]),
    'num-in': (_NU, [(_MOD, "        val = constants.get(x)\n", "        val = constants[x] if x in constants else None\n")]),
})
