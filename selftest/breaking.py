"""Edits that break a property; every one must leave an obligation undischarged."""
CO, DE, GE, CT, SC, OP = ('prophy/composite.py', 'prophy/descriptor.py', 'prophy/generators.py', 'prophy/container.py',
                          'prophy/scalar.py', 'prophy/optional.py')
MO = 'prophyc/model.py'
EDITS = {
    'optional-size': (['optional'], [(OP, 'max(scalar.u32._ALIGNMENT, cls._ALIGNMENT)', 'cls._ALIGNMENT')]),
    'optional-absent': (['optional'], [(DE, 'return b"\\x00" * type_._OPTIONAL_SIZE', 'return b"\\x00" * type_._SIZE')]),
    'optional-order': (['optional'], [(DE, '_optional_type._encode(True, endianness)', "_optional_type._encode(True, '<')")]),
    'optional-pos': (['optional'], [(DE, 'pos += opt_alignment', 'pos += 4')]),
    'optional-absent-size': (['optional'], [(DE, 'return opt_alignment + type_._SIZE', 'return type_._OPTIONAL_ALIGNMENT')]),
    'sizer-shift': (['sizer'], [(GE, 'value -= bound_shift', 'pass')]),
    'sizer-negative': (['sizer'], [(GE, 'if value < 0:\n                raise', 'if value < -1:\n                raise')]),
    'sizer-first': (['sizer'], [(GE, 'if len(sizes) != 1:', 'if len(sizes) != 1 and False:')]),
    'union-size': (['union attributes'], [(GE, 'cls._SIZE = natural_size + distance_to_next_multiply(natural_size, cls._ALIGNMENT)',
                                           'cls._SIZE = natural_size')]),
    'union-align': (['union attributes'], [(GE, 'max(u32._ALIGNMENT, max(type_._ALIGNMENT', 'max(1, max(type_._ALIGNMENT')]),
    'partial': (['struct attributes'], [(GE, 'alignment = 1\n            alignment = max', 'pass\n            alignment = max')]),
    'partial-missing': (['struct attributes'], [(GE, 'if type_._DYNAMIC:\n                field', 'if type_._UNLIMITED:\n                field')]),
    'size-last': (['struct attributes'], [(GE, 'types[1:]] + [cls._ALIGNMENT]', 'types[1:]] + [1]')]),
    'size-packed': (['struct attributes'], [(GE, 'if not issubclass(cls, struct_packed) and cls._descriptor', 'if cls._descriptor')]),
    'dynamic-last': (['struct attributes'], [(GE, 'cls._DYNAMIC = any(type_._DYNAMIC for', 'cls._DYNAMIC = all(type_._DYNAMIC for')]),
    'bytes-limit': (['bytes'], [(CO, 'if _bytes._max_len and len(value) > _bytes._max_len', 'if _bytes._max_len and len(value) > _bytes._max_len + 1')]),
    'delimiter': (['member codecs'], [(DE, 'if value < 0:\n        raise', 'if False:\n        raise')]),
    'hint': (['member codecs'], [(DE, 'endianness, len_hints.get(name))\n\n\ndef decode_comp', 'endianness, None)\n\n\ndef decode_comp')]),
    'terminal': (['member codecs'], [(DE, 'terminal=False', 'terminal=True')]),
    'append-unchecked': (['scalar array operations'], [(CT, 'value = self._TYPE._check(value)\n        if self._max_len and len(self) == self._max_len:\n            raise ProphyError("exceeded array limit")\n        self._values.append', 'if self._max_len and len(self) == self._max_len:\n            raise ProphyError("exceeded array limit")\n        self._values.append')]),
    'extend-limit': (['scalar array operations'], [(CT, 'len(self) + len(values) > self._max_len', 'len(self) + len(values) > self._max_len + 1')]),
    'extend-early': (['scalar array operations'], [(CT, 'if not values:\n            return\n        values = checked_values(self._TYPE, values)', 'if not values:\n            return\n        values = list(values)')]),
    'slice-limit': (['scalar array operations'], [(CT, 'len(self) + len(values) - len(self._values[idx])', 'len(values)')]),
    'fixed-slice': (['scalar array operations'], [(CT, 'if len(self._values[idx]) != len(values):', 'if len(self._values[idx]) < len(values):')]),
    'insert-place': (['scalar array operations'], [(CT, 'self._values.insert(idx, value)', 'self._values.insert(min(idx, 0), value)')]),
    'add-early': (['composite array operations'], [(CT, 'new_element = self._TYPE()\n        for name', 'new_element = self._TYPE()\n        self._values.append(new_element)\n        for name'), (CT, '        self._values.append(new_element)\n        return', '        return')]),
    'extend-alias': (['composite array operations', 'element copy'], [(CT, 'new_elements.append(new_element)', 'new_elements.append(message)')]),
    'extend-partial': (['composite array operations'], [(CT, 'new_elements.append(new_element)', 'self._values.append(new_element)'), (CT, 'self._values.extend(new_elements)', 'pass')]),
    'optional-clear': (['struct fields'], [(GE, 'self._fields.pop(descriptor_field.name, None)', 'self._fields.clear()')]),
    'optional-keep': (['struct fields'], [(GE, 'if new_value is True:\n                    self._fields[descriptor_field.name] = descriptor_field.type()', 'if new_value is True:\n                    self._fields.setdefault(descriptor_field.name, descriptor_field.type())')]),
    'composite-unstored': (['struct fields'], [(GE, 'return self._fields.setdefault(descriptor_field.name, descriptor_field.type())', 'return descriptor_field.type()')]),
    'scalar-unchecked': (['struct fields'], [(GE, 'def setter(self, new_value):\n                self._fields[descriptor_field.name] = descriptor_field.type._check(new_value)', 'def setter(self, new_value):\n                descriptor_field.type._check(new_value)\n                self._fields[descriptor_field.name] = new_value')]),
    'switch-keeps': (['union discriminator'], [(GE, 'self._discriminated = field\n                        self._fields = {}', 'self._discriminated = field')]),
    'switch-resets': (['union discriminator'], [(GE, 'if field != self._discriminated:', 'if True:')]),
    'union-any-arm': (['union fields'], [(GE, 'if self._discriminated is not field:\n                raise ProphyError("currently field %s is discriminated" % self._discriminated.discriminator)\n            new_value', 'new_value')]),
    'sizer-limit': (['limits of counted arrays'], [(GE, 'sizer_item.type._MAX - bound_shift)', 'sizer_item.type._MAX)')]),
    'copy-limited': (['field copy'], [(CO, 'if rhs._DYNAMIC or rhs._BOUND:', 'if rhs._DYNAMIC:')]),
    'copy-alias': (['field copy'], [(CO, 'lhs[:] = rhs[:]', 'self._fields[name] = rhs')]),
    'copy-optional': (['field copy'], [(CO, 'setattr(self, name, True)\n                lhs = getattr(self, name)\n            lhs.copy_from(rhs)', 'self._fields[name] = rhs\n                return\n            lhs.copy_from(rhs)')]),
    'copy-keeps': (['struct copy'], [('prophy/composite_base.py', 'self._fields.clear()\n', 'pass\n')]),
    'copy-self': (['struct copy'], [('prophy/composite_base.py', 'if other is self:\n            return\n', '')]),
    'copy-arm': (['union copy'], [(CO, 'lhs = getattr(self, self._discriminated.name)\n            lhs.copy_from(rhs)', 'self._fields[self._discriminated.name] = rhs')]),
    'const-floor': (['expression actions of the prophy parser'], [('prophyc/parsers/prophy.py', 't[0] = t[1] // t[3]', 't[0] = int(t[1] / t[3])')]),
    'const-shift': (['expression actions of calc'], [('prophyc/calc.py', 'min(count, MAX_BITS + 1)', 'min(count, 63)')]),
    'const-range': (['constants and their uses'], [('prophyc/parsers/prophy.py', '-2 ** 63 <= t[4] < 2 ** 64', '-2 ** 63 <= t[4] <= 2 ** 64')]),
    'const-minus': (['operator grouping'], [('prophyc/parsers/prophy.py', "%prec UMINUS", "")]),

    'model-optional': (['sizes of struct members and structs'], [(MO, 'member.byte_size = member.byte_size + member.alignment', 'member.byte_size = member.byte_size + DISC_SIZE')]),
    'model-optional-align': (['sizes of struct members and structs'], [(MO, 'member.alignment = max(DISC_SIZE, member.alignment)', 'pass')]),
    'model-typedef-once': (['sizes of struct members and structs', 'sizes of unions'], [(MO, 'while isinstance(node_, Typedef) and node_.definition:', 'if isinstance(node_, Typedef) and node_.definition:')]),
    'model-block-first': (['sizes of struct members and structs'], [(MO, 'for part in [x for x in parts][1:]:', 'for part in [x for x in parts][2:]:')]),
    'model-block-all': (['sizes of struct members and structs'], [(MO, 'for part in [x for x in parts][1:]:', 'for part in parts:')]),
    'model-delimiter': (['sizes of struct members and structs'], [(MO, 'lambda m: (m.kind == Kind.DYNAMIC) or (m.is_array and not m.size)', 'lambda m: m.is_array and not m.size')]),
    'model-pad-sign': (['sizes of struct members and structs'], [(MO, 'is_member_dynamic(prev_member) and (prev_member.alignment < member.alignment)', 'is_member_dynamic(prev_member)')]),
    'model-pad-own': (['sizes of struct members and structs'], [(MO, 'prev_member.padding = -member.alignment', 'prev_member.padding = -alignment')]),
    'model-dynamic-kind': (['sizes of struct members and structs'], [(MO, 'return m.is_dynamic or m.greedy or m.kind != Kind.FIXED', 'return m.is_dynamic or m.greedy')]),
    'model-last-pad': (['sizes of struct members and structs'], [(MO, 'unaligned = prev_member.alignment < alignment or prev_member.byte_size % alignment', 'unaligned = prev_member.alignment < alignment')]),
    'model-any-dynamic': (['sizes of struct members and structs'], [(MO, 'if any(is_member_dynamic(m) for m in node_.members):', 'if is_member_dynamic(prev_member):')]),
    'model-end-pad': (['sizes of struct members and structs'], [(MO, '            byte_size += padding\n            if any', '            if any')]),
    'model-union-pad': (['sizes of unions'], [(MO, 'int((node_.byte_size + node_.alignment - 1) / node_.alignment)', 'int((node_.byte_size + node_.alignment) / node_.alignment)')]),
    'model-union-disc': (['sizes of unions'], [(MO, 'or 0) + node_.alignment\n', 'or 0) + DISC_SIZE\n')]),
    'model-builtin': (['sizes of struct members and structs'], [(MO, "'i64': 8", "'i64': 4")]),
    'model-kind-once': (['kinds of members'], [(MO, 'while isinstance(lowermost, Typedef):', 'if isinstance(lowermost, Typedef):')]),
    'model-kind-last': (['kinds of structs'], [(MO, 'self.kind = max(x.kind for x in self.members)', 'self.kind = self.members[-1].kind')]),
    'model-kind-stale': (['kinds of structs'], [(MO, 'for member in self.members:\n                    member.calc_wire_stiffness()', 'for member in self.members[1:]:\n                    member.calc_wire_stiffness()')]),
}


# generated C++
_C3 = ['C++ %s: enc dec public' % g for g in ('mixed with a greedy tail', 'limited arrays of composites', 'optionals of composites', 'dynamic arrays', 'external counters', 'scalars', 'greedy arrays', 'unions', 'arrays of dynamic structs')]
_C5 = ['C++ %s: enclen size public' % g for g in ('mixed', 'several dynamic members', 'limited arrays', 'dynamic structs', 'greedy arrays', 'optionals of composites', 'unions', 'arrays of dynamic structs')]
_C7 = ['C++ %s: enclen declen public' % g for g in ('mixed', 'limited arrays', 'external counters', 'greedy arrays', 'dynamic arrays', 'arrays of dynamic structs', 'unions')]
_H = 'prophy_cpp/include/prophy/'
_G = 'prophyc/generators/cpp_full.py'

EDITS.update({
    'cpp-no-max': (_C7, [(_H + 'detail/decoder.hpp', "size_t(n) > max || size_t(n) > available", "size_t(n) > available")]),
    'cpp-no-available': (_C7, [(_H + 'detail/decoder.hpp', "size_t(n) > max || size_t(n) > available", "size_t(n) > max")]),
    'cpp-consumed-le': (_C7, [(_H + 'detail/message.hpp', "bytes_read == size", "bytes_read <= size")]),
    'cpp-align-gt': (_C7, [(_H + 'detail/decoder.hpp', "if (aligned > end)", "if (aligned > end + A)")]),
    'cpp-advance-le': (_C7, [(_H + 'detail/decoder.hpp', "    if (size_t(end - pos) < n)\n", "    if (size_t(end - pos) + 1 < n)\n")]),
    'cpp-overflow': (_C7, [(_H + 'detail/decoder.hpp', "if (size_t(end - pos) < n * sizeof(T))", "if (uint32_t(end - pos) < uint32_t(n * sizeof(T)))")]),
    'cpp-greedy-round': (_C7, [(_H + 'detail/decoder.hpp', "size_t n = size_t(end - pos) / codec_traits<T>::size;", "size_t n = (size_t(end - pos) + codec_traits<T>::size - 1) / codec_traits<T>::size;")]),
    'cpp-greedy-keep': (_C3, [(_H + 'detail/decoder.hpp', "                v.pop_back();\n", "")]),
    'cpp-optional-flag-any': (_C3, [(_H + 'detail/decoder.hpp', "    if (disc)\n", "    if (disc == 1)\n")]),
    'cpp-big-u32': (_C3, [(_H + 'detail/decoder.hpp', "    x = uint32_t(pos[0]) << 24;\n    x |= uint32_t(pos[1]) << 16;", "    x = uint32_t(pos[1]) << 24;\n    x |= uint32_t(pos[0]) << 16;")]),
    'cpp-native-big': (_C3, [(_H + 'detail/message.hpp', "return encode<native>(data);", "return encode<big>(data);")]),
    'cpp-limited-no-min': (_C3, [(_G, "'pos = do_encode<E>(pos, {2}(std::min(x.{0}.size(), size_t({1}))));\\n'", "'pos = do_encode<E>(pos, {2}(x.{0}.size()));\\n'")]),
    'cpp-limited-data-no-min': (_C5, [(_G, "text += ('do_encode<E>(pos, x.{0}.data(), {2}(std::min(x.{0}.size(), size_t({1}))));\\n'", "text += ('do_encode<E>(pos, x.{0}.data(), x.{0}.size());\\n'")]),
    'cpp-size-padding': (_C5, [(_G, "bytes_ += m.byte_size + max(m.padding, 0)", "bytes_ += m.byte_size + m.padding")]),
    'cpp-size-nearest': (_C5, [(_G, "'prophy::detail::nearest<{0}>(\\n'.format(abs(m.padding))", "'prophy::detail::nearest<{0}>(\\n'.format(min(4, abs(m.padding)))")]),
    'cpp-encode-align': (_C5, [(_G, "text += 'pos = align<{0}>(pos);\\n'.format(abs(m.padding))", "text += 'pos = align<{0}>(pos);\\n'.format(max(2, abs(m.padding) // 2))")]),
    'cpp-fixed-negative': (_C5, [(_G, "return (node.kind == model.Kind.FIXED) and str(node.byte_size) or '-1'", "return (node.kind != model.Kind.UNLIMITED) and str(node.byte_size) or '-1'")]),
    'cpp-vector-size': (_C5, [(_H + 'detail/message.hpp', "get_byte_size());", "get_byte_size() + 1);")]),
    'cpp-composite-step': (_C3, [(_H + 'detail/encoder.hpp', "            data += T::encoded_byte_size;\n", "            data += sizeof(T);\n")]),
})


# raw C++
_C9 = ['raw C++ ' + g for g in ('several dynamic members', 'several arrays of one counter', 'limited arrays', 'dynamic arrays', 'arrays of dynamic structs', 'greedy tails', 'external counters', 'optionals', 'scalars', 'unions')]
_R = 'prophyc/generators/cpp.py'
EDITS.update({
    'raw-swap-64': (_C9, [(_H + 'prophy.hpp', "0x0000FFFF0000FFFFULL ", "0x0000FFFF000000FFULL ")]),
    'raw-fixed-le': (_C9, [(_H + 'detail/prophy.hpp', "    while (n--)\n    {\n        swap(first);", "    while (n-- > 1)\n    {\n        swap(first);")]),
    'raw-float': (_C9, [(_H + 'prophy.hpp', "inline void swap(double* in)\n{\n    swap(reinterpret_cast<uint64_t*>(in));", "inline void swap(double* in)\n{\n    swap(reinterpret_cast<uint32_t*>(in));")]),
    'raw-cast-less': (_C9, [(_H + 'detail/align.hpp', "enum { mask = alignment<Tp>::value - 1 };", "enum { mask = (alignment<Tp>::value > 4 ? 4 : alignment<Tp>::value) - 1 };")]),
    'raw-dynamic-step': (_C9, [(_H + 'detail/prophy.hpp', "        first = swap(first);", "        swap(first);\n        ++first;")]),
})


# raw C++ declarations
_C8 = ['raw C++ members', 'raw C++ paddings', 'raw C++ union definitions', 'raw C++ structs', 'raw C++ packing']
EDITS.update({
    'lay-pad-table': (_C8, [(_R, "        (2, 'uint16_t'),", "        (2, 'uint8_t'),")]),
    'lay-pad-index': (_C8, [(_R, "        self.index += 1\n", "        self.index = max(1, self.index)\n")]),
    'lay-value-padding': (_C8, [(_R, "    return max((alignment or 0) - model.DISC_SIZE, 0)", "    return max((alignment or 0) // 2 - model.DISC_SIZE, 0)")]),
    'lay-typedef-once': (_C8, [(_R, "    while getattr(node, 'definition', None):\n        node = node.definition\n    if isinstance(node, (model.Struct", "    if getattr(node, 'definition', None):\n        node = node.definition\n    if isinstance(node, (model.Struct")]),
    'lay-no-padding': (_C8, [(_R, "            if member.padding is not None and member.padding > 0:", "            if member.padding is not None and member.padding > 0 and not member.is_limited:")]),
    'lay-union-padding': (_C8, [(_R, "if union.alignment == 8 else ''", "if union.alignment == 8 and len(union.members) > 1 else ''")]),
    'lay-part-align': (_C8, [(_R, "                align=part[0].alignment\n", "                align=part[-1].alignment\n")]),
    'lay-partition': (_C8, [('prophyc/model.py', "        if member.kind == Kind.DYNAMIC or member.is_dynamic:\n            current = []", "        if member.is_dynamic:\n            current = []")]),
    'lay-not-packed': (_C8, [(_H + 'detail/struct.hpp', "aligned(alignment), packed", "aligned(alignment)")]),
})


# text
_C18 = ['text C++ ' + g for g in ('dynamic arrays', 'arrays of dynamic structs', 'limited arrays', 'optionals', 'bytes', 'scalars', 'unions', 'mixed')] + ['text parts', 'text in Python']
_PR = _H + 'detail/printer.hpp'
_CF = 'prophyc/generators/cpp_full.py'
EDITS.update({
    'txt-signed': (_C18, [(_PR, "    out << int(x);", "    out << unsigned(x);")]),
    'txt-indent': (_C18, [(_PR, "        message_impl<T>::print(x, out, indent + 1);", "        message_impl<T>::print(x, out, indent + 2);")]),
    'txt-loop': (_C18, [(_PR, """    static void print(std::ostream& out, size_t indent, const char* name, const T* x, size_t n)
    {
        while(n)
        {
            print(out, indent, name, *x);
            ++x;
            --n;
        }
    }
};

template <typename T>
struct printer<T, false, true>""", """    static void print(std::ostream& out, size_t indent, const char* name, const T* x, size_t n)
    {
        while(n)
        {
            print(out, indent, name, x[n - 1]);
            --n;
        }
    }
};

template <typename T>
struct printer<T, false, true>""")]),
    'txt-hex': (_C18, [(_PR, "digits[x >> 4] << digits[x & 15]", "digits[x & 15] << digits[x >> 4]")]),
    'txt-del': (_C18, [(_PR, "(x <= 126)", "(x <= 127)")]),
    'txt-close': (_C18, [(_PR, '        out << indent_t(indent) << "}\\n";', '        out << "}\\n";')]),
    'txt-optional': (_C18, [(_CF, "            text += 'if (x.{0}) do_print(out, indent, \"{0}\", *x.{0});\\n'.format(m.name)", "            text += 'do_print(out, indent, \"{0}\", *x.{0});\\n'.format(m.name)")]),
    'txt-py-indent': (_C18, [('prophy/composite.py', "    single_indent_level = \" \" * 2", "    single_indent_level = \" \" * 4")]),
    'txt-literal': (_C18, [(_PR, "            out << literal;", "            out << uint32_t(x);")]),
})
_PT, _PP = 'prophyc/patch.py', 'prophyc/parsers/prophy.py'
_PR17 = ['patch rules', 'patch rules of a message', 'patched messages']
_RU = ['types of counters', 'constants and their uses', 'rules of struct members', 'struct definitions', 'rules of union arms', 'forms of struct members', 'types and names', 'array extents', 'reported errors']
EDITS.update({
    'patch-static-bound': (_PR17, [(_PT, "    mem.bound = None\n    mem.size = size", "    mem.size = size")]),
    'patch-dyn-optional': (_PR17, [(_PT, "    mem.bound = len_name\n    mem.size = None\n    mem.greedy = False\n    mem.optional = False", "    mem.bound = len_name\n    mem.size = None\n    mem.greedy = False")]),
    'patch-insert-clamp': (_PR17, [(_PT, "    index = max(index, -len(node.members))\n", "    index = max(index, 0)\n")]),
    'patch-limited-slice': (_PR17, [(_PT, "node.members[:i] if", "node.members[:i + 1] if")]),
    'patch-remove': (_PR17, [(_PT, "    del node.members[i]", "    del node.members[i:]")]),
    'patch-last': (_PR17, [(_PT, "(x for x in enumerate(node.members) if x[1].name == name)", "(x for x in reversed(list(enumerate(node.members))) if x[1].name == name)")]),
    'patch-rename-union': (_PR17, [(_PT, "isinstance(node_, (model.Struct, model.Union))", "isinstance(node_, model.Struct)")]),
    'patch-rename-params': (_PR17, [(_PT, "    if len(patch_.params) == 2:\n        return", "    if len(patch_.params) >= 2:\n        return")]),
    'patch-apply-first': (_PR17, [(_PT, "        node = action(node, patch_)\n    return node", "        return action(node, patch_)\n    return node")]),
    'patch-not-stored': (_PR17, [(_PT, "            nodes[idx] = _apply(node, patches)", "            _apply(node, patches)")]),
    'rule-fieldnames': (_RU, [(_PP, "            fieldnames.add(name)\n            if", "            if")]),
    'rule-sizer-after': (_RU, [(_PP, "m[0].name == member.bound, members[:i])", "m[0].name == member.bound, members)")]),
    'rule-sizer-optional': (_RU, [(_PP, "not bound.is_array and not bound.optional", "not bound.is_array")]),
    'rule-optional-kind': (_RU, [(_PP, "not member.optional or member.kind == model.Kind.FIXED", "not member.optional or member.kind != model.Kind.UNLIMITED")]),
    'rule-greedy-last': (_RU, [(_PP, "for member, line, pos in members[:-1]:", "for member, line, pos in members[:-2]:")]),
    'rule-greedy-nested': (_RU, [(_PP, "not member.greedy and member.kind != model.Kind.UNLIMITED", "not member.greedy")]),
    'rule-union-disc': (_RU, [(_PP, "            discriminatorvalues.add(member.discriminator)\n", "            discriminatorvalues.add(member.name)\n")]),
    'rule-union-kind': (_RU, [(_PP, "                member.kind == model.Kind.FIXED,\n                \"dynamic union arm", "                member.kind != model.Kind.UNLIMITED,\n                \"dynamic union arm")]),
    'rule-unique': (_RU, [(_PP, "t[1] not in self.typedecls and t[1] not in self.constdecls", "t[1] not in self.typedecls")]),
    'rule-extent': (_RU, [(_PP, "            t[1] > 0,", "            t[1] >= 0,")]),
    'rule-sizer-type': (_RU, [(_PP, "        else:\n            return False\n\n    def p_specification", "        else:\n            return typename in self.typedecls\n\n    def p_specification")]),
    'rule-disc-range': (_RU, [(_PP, "            0 <= value < 2 ** 32,", "            value < 2 ** 32,")]),
})
_FP = 'prophyc/file_processor.py'
_FI = ['search of included files', 'cache of processed files']
EDITS.update({
    'files-last': (_FI, [(_FP, "    for directory in dirs:\n", "    for directory in reversed(dirs):\n")]),
    'files-skip': (_FI, [(_FP, "    for directory in dirs:\n", "    for directory in dirs[1:]:\n")]),
    'files-exists': (_FI, [(_FP, "        if os.path.isfile(path):", "        if os.path.exists(path):")]),
    'files-swap': (_FI, [(_FP, "        dirs[0] = directory\n", "        dirs.insert(0, directory)\n")]),
    'files-restore': (_FI, [(_FP, "    try:\n        tmp = dirs[0]\n        dirs[0] = directory\n        yield dirs\n    finally:\n        dirs[0] = tmp", "    tmp = dirs[0]\n    dirs[0] = directory\n    yield dirs\n    dirs[0] = tmp")]),
    'files-key': (_FI, [(_FP, "        abspath = os.path.abspath(path)", "        abspath = path")]),
    'files-mark': (_FI, [(_FP, "        self.files[abspath] = None\n\n", "")]),
    'files-nocache': (_FI, [(_FP, "        self.files[abspath] = result\n        return result", "        return result")]),
    'files-uncache': (_FI, [(_FP, "        self.files[abspath] = result\n        return result", "        self.files[abspath] = result or None\n        return result")]),
    'files-unicode': (_FI, [(_FP, "except (EnvironmentError, UnicodeError)", "except EnvironmentError")]),
    'files-dirname': (_FI, [(_FP, "        with swap_dir(self.include_dirs, os.path.dirname(path)):", "        with swap_dir(self.include_dirs, os.path.dirname(leaf)):")]),
})

_SO = ['sort of definitions']
_MO = 'prophyc/model.py'
EDITS.update({
    'sort-known-early': (_SO, [(_MO, "        node = nodes[index]\n        for dep in", "        node = nodes[index]\n        known.add(node.name)\n        for dep in")]),
    'sort-append': (_SO, [(_MO, "nodes.insert(index, nodes.pop(found_index))", "nodes.insert(index + 1, nodes.pop(found_index))")]),
    'sort-swap': (_SO, [(_MO, "nodes.insert(index, nodes.pop(found_index))", "nodes.insert(max(index - 1, 0), nodes.pop(found_index))")]),
    'sort-dup': (_SO, [(_MO, "nodes.insert(index, nodes.pop(found_index))", "nodes.insert(index, nodes[found_index])")]),
    'sort-once': (_SO, [(_MO, "        while model_sort_rotate():\n            pass", "        model_sort_rotate()")]),
    'sort-rotated': (_SO, [(_MO, "    for index in range(len(nodes)):\n        rotated = set()\n", "    rotated = set()\n    for index in range(len(nodes)):\n")]),
    'sort-short': (_SO, [(_MO, "    for index in range(len(nodes)):\n        rotated", "    for index in range(len(nodes) - 2):\n        rotated")]),
    'sort-enumerators': (_SO, [(_MO, "        known.update(defined_names(node))", "        known.add(node.name)")]),
    'sort-start': (_SO, [(_MO, "find_first_dep(dep, index + 1)", "find_first_dep(dep, index + 2)")]),
    'sort-forget': (_SO, [(_MO, "                rotated.add(dep)\n", "")]),
    'sort-last-dep': (_SO, [(_MO, "        for dep in node.dependencies():\n            if dep not in known and", "        for dep in list(node.dependencies())[:1]:\n            if dep not in known and")]),
})

_DE = ['dependencies of definitions']
EDITS.update({
    'dep-size': (_DE, [(_MO, "        if self.size:\n            for symbol in _find_symbols(self.size):\n                yield symbol", "        if self.size and self.bound:\n            for symbol in _find_symbols(self.size):\n                yield symbol")]),
    'dep-arm': (_DE, [(_MO, "        for symbol in _find_symbols(self.discriminator):\n            yield symbol\n", "")]),
    'dep-own': (_DE, [(_MO, "            if dependency not in own:\n                yield dependency", "            yield dependency")]),
    'dep-own-last': (_DE, [(_MO, "        own = set(member.name for member in self.members)\n", "        own = set(member.name for member in self.members[:-1])\n")]),
    'dep-first': (_DE, [(_MO, "        for member in self.members:\n            for dependency in member.dependencies():\n                yield dependency", "        for member in self.members:\n            for dependency in member.dependencies():\n                yield dependency\n                break")]),
    'dep-members': (_DE, [(_MO, "        for member in self.members:\n            for dependency in member.dependencies():\n                yield dependency", "        for member in self.members[1:]:\n            for dependency in member.dependencies():\n                yield dependency")]),
    'dep-const': (_DE, [(_MO, "        return _find_symbols(self.value)", "        return _find_symbols(self.value)[:1]")]),
    'dep-name': (_DE, [(_MO, "    def dependencies(self):\n        yield self.type_name\n\n\nclass StructMember", "    def dependencies(self):\n        yield self.name\n\n\nclass StructMember")]),
})

_IS = 'prophyc/parsers/isar.py'
_C17I = ['isar members', 'isar constants and typedefs', 'isar unions', 'isar enums', 'isar structs'] + [
    'isar arrays of a %s, optional %s' % (m, o) for m in ('struct', 'message') for o in ('absent', 'false', 'true')]
EDITS.update({
    'isar-negative': (['isar enums'], [(_IS, "0x100000000 + int_value", "0x10000 + int_value")]),
    'isar-sign': (['isar enums'], [(_IS, "if int_value < 0:", "if int_value < -1:")]),
    'isar-arm': (['isar unions'], [(_IS, 'expand_operators(get_required(member, "discriminatorValue"))', 'get_required(member, "discriminatorValue")')]),
    'isar-flag': (['isar structs'], [(_IS, "in make_struct_members(member, last_member_array_is_dynamic):", "in make_struct_members(member):")]),
    'isar-first': (['isar structs'], [(_IS, "                members.append(sub_)\n", "                members.append(sub_)\n                break\n")]),
    'isar-case': (['isar members'], [(_IS, 'optional.lower() == "true"', 'optional == "true"')]),
    'isar-enabler': (_C17I, [(_IS, '"has_" + xml_elem_name, "u32"', '"has_" + xml_elem_name, "u8"')]),
    'isar-keep': (_C17I, [(_IS, "size_ = None if dynamic_array else size", "size_ = size")]),
    'isar-size2': (_C17I, [(_IS, '"{}*{}".format(parenthesize(size), parenthesize(size2))', '"{}*{}".format(size, size2)')]),
    'isar-at': (_C17I, [(_IS, "bound=sizer_name[1:]", "bound=sizer_name[2:]")]),
    'isar-len': (_C17I, [(_IS, 'xml_elem_name + "_len"', '"numOf_" + xml_elem_name')]),
    'isar-type': (_C17I, [(_IS, '"variableSizeFieldType", "u32"', '"variableSizeFieldType", "u16"')]),
})

_SC = ['definitions of an include', 'index of the types']
EDITS.update({
    'scope-nested': (_SC[:1], [(_MO, "                for symbol in member.defined_symbols():\n                    yield symbol\n", "                continue\n")]),
    'scope-first': (_SC[:1], [(_MO, "                    yield symbol\n", "                    yield symbol\n                    break\n")]),
    'scope-include': (_SC[:1], [(_MO, "            else:\n                yield member\n", "            yield member\n")]),
    'scope-index': (_SC[1:], [(_MO, "in _make_types_index(node_.members):", "in _make_types_index(node_.members[1:]):")]),
    'scope-name': (_SC[1:], [(_MO, "                included.add(node_.name)\n                for", "                for")]),
    'scope-else': (_SC[1:], [(_MO, "            if node_.name not in included:\n", "            if included and node_.name not in included:\n")]),
    'scope-key': (_SC[1:], [(_MO, "yield included_name, included_type", "yield node_.name, included_type")]),
})

_EV = ['enum values']
EDITS.update({
    'enum-zero': (_EV, [(GE, "value = name_to_int.get(value)\n                if value is None:", "value = name_to_int.get(value)\n                if not value:")]),
    'enum-unknown-name': (_EV, [(GE, "value = name_to_int.get(value)\n", "value = name_to_int.get(value, 0)\n")]),
    'enum-unknown-number': (_EV, [(GE, "if value not in int_to_name:", "if value > 1 and value not in int_to_name:")]),
    'enum-default': (_EV, [(GE, "self(self._enumerators[0][1])", "self(self._enumerators[-1][1])")]),
    'enum-plain': (_EV, [(GE, "                return cls(value)\n            else:", "                return value\n            else:")]),
    'enum-other': (_EV, [(GE, 'raise ProphyError("neither string nor int")', 'return cls(0)')]),
    'enum-swap': (_EV, [(GE, "name_to_int = {name: value for name, value in self._enumerators}",
                         "name_to_int = {name: self._enumerators[0][1] for name, value in self._enumerators}")]),
})

_ST = ['state of the evaluator', 'state of the parser']
EDITS.update({
    'state-update': (_ST[:1], [('prophyc/calc.py', "        self.vars = vars_\n", "        self.vars.update(vars_)\n")]),
    'state-first': (_ST[:1], [('prophyc/calc.py', "        self.vars = vars_\n", "        self.vars = self.vars or vars_\n")]),
    'state-given': (_ST[:1], [('prophyc/calc.py', "        self.vars = vars_\n", "        vars_.update(self.vars)\n        self.vars = vars_\n")]),
    'state-types': (_ST[1:], [('prophyc/parsers/prophy.py', "        parsers_stack = []\n        with allocate", "        with allocate"),
                              ('prophyc/parsers/prophy.py', "class ProphyParser(object):\n", "parsers_stack = []\n\n\nclass ProphyParser(object):\n"),
                              ('prophyc/parsers/prophy.py', "        self.typedecls = {}\n", "        self.typedecls = getattr(self, 'typedecls', {})\n")]),
})

_NU, _MOD = ['numbers of the model'], 'prophyc/model.py'
EDITS.update({
    'num-zero': (_NU, [(_MOD, "if val is None or isinstance(val, six.string_types) else val", "if not val or isinstance(val, six.string_types) else -val")]),
    'num-none': (_NU, [(_MOD, "            except calc.ParseError:\n                return None\n", "            except calc.ParseError:\n                return 0\n")]),
    'num-error': (_NU, [(_MOD, "        except ValueError:\n            try:\n                return calc.eval(self.value, all_constants)\n            except calc.ParseError:\n                return None\n",
                         "        except ValueError:\n            return calc.eval(self.value, all_constants)\n")]),
    'num-octal': (_NU, [(_MOD, "    try:\n        return int(x)\n    except ValueError:\n", "    try:\n        return int(x) + 1\n    except ValueError:\n")]),
})
