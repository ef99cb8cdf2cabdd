"""Changes to try the checks on: (id, expected property or 'ok', file, [(old, new), ...]).
'ok' changes keep the behaviour and have to stay quiet."""
E='binschema/src/encoder.rs'; D='binschema/src/decoder.rs'; C='binschema/src/coder/coder.rs'; V='binschema/src/var_len.rs'
A='binschema/src/coder/coder_alloc.rs'; ER='binschema/src/error.rs'; DO='binschema/src/do_if_err.rs'
M = []
def m(id, prop, f, *subs):
    M.append((id, prop, f, list(subs)))

# --- C01
m('c01-tuple-len', 'C01', C, ("inners.len() == next,", "inners.len() >= next,"))
m('c01-struct-skip', 'C01', C, ("""            .get(*next);
        let field =""", """            .get((*next).min(7));
        let field ="""))
m('c01-struct-fin', 'C01', C, ("fields.len() == next,", "fields.len() - (fields.len() == 12) as usize == next,"))
m('c01-seq-elem', 'C01', C, ("*next < len,", "*next <= len,"))
m('c01-autofinish-once', 'C01', C, ("        while matches!(\n            self.stack.iter().rev().next(),\n            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })\n        ) {", "        if matches!(\n            self.stack.iter().rev().next(),\n            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })\n        ) {"))
m('c01-finished', 'C01', C, ("self.stack.is_empty() && !self.broken", "self.stack.len() <= (self.dbg_log.is_some() as usize) && !self.broken"))
m('c01-name-prefix', 'C01', C, ("&field.name == name,", "field.name.len() == name.len(),"))
m('c01-variant-case', 'C01', C, ("variant_name == need_variant_name,", "variant_name.eq_ignore_ascii_case(need_variant_name),"))
m('c01-fixed-len', 'C01', C, ("fixed_len == len,", "fixed_len as u32 == len as u32,"))
# --- C02
m('c02-next-early', 'C02', C, ("""        ensure!(
            &field.name == name,""", """        *next += 1;
        ensure!(
            &field.name == name,"""), ("""            name,
        );
        *next += 1;
        dbg_log!(self, "begin struct field {:?}", name);""", """            name,
        );
        dbg_log!(self, "begin struct field {:?}", name);"""))
m('c02-no-cancel', 'C02', E, ("""            .begin_enum_variant_name(variant_name)
            .do_if_err(|| self.state.cancel_enum())?;""", """            .begin_enum_variant_name(variant_name)?;"""))
m('c02-write-first', 'C02', E, ("""        self.state.begin_option()?;
        self.state.set_option_some()?;
        self.write(&[1])?;""", """        self.write(&[1])?;
        self.state.begin_option()?;
        self.state.set_option_some()?;"""))
m('c02-read-first', 'C02', D, ("""        self.state.code_bool()?;
        let [n] = self.read([0])?;""", """        let [n] = self.read([0])?;
        self.state.code_bool()?;"""))
m('c02-broken-refuse', 'C02', C, ("""        let fixed_len =
            validate_need""", """        self.broken |= len == usize::MAX;
        let fixed_len =
            validate_need"""))
# --- C03
m('c03-len-unmarked', 'C03', D, ("""                    "{} out of range for a usize",
                    n,
                )))
            .do_if_err(|| self.state.mark_broken())""", """                    "{} out of range for a usize",
                    n,
                )))"""))
m('c03-char', 'C03', D, ("""                "{} is not a valid char",
                n
            ))
            .do_if_err(|| self.state.mark_broken())""", """                "{} is not a valid char",
                n
            ))"""))
m('c03-recurse0', 'C03', C, ("""            if n == 0 {
                self.broken = true;""", """            if n == 0 {"""))
m('c03-orphan', 'C03', C, ("self.stack.is_empty() && !self.broken", "self.stack.is_empty()"))
m('c03-unbreak', 'C03', C, ("        if self.broken {\n            return;\n        }\n        debug", "        if self.broken {\n            self.broken = self.stack.len() > 40;\n            return;\n        }\n        debug"))
m('c03-enum-read', 'C03', D, ("""        let variant_ord = read_ord(&mut self.read, num_variants)
            .do_if_err(|| self.state.mark_broken())?;""", """        let variant_ord = read_ord(&mut self.read, num_variants)
            .do_if_err(|| if num_variants > 1 { self.state.mark_broken() })?;"""))
# --- C04
m('c04-ordlen', 'C04', V, ("    let byte_len = ord_byte_len(num_variants - 1);\n    let used_bytes = &all_bytes[..byte_len];", "    let byte_len = ord_byte_len(num_variants);\n    let used_bytes = &all_bytes[..byte_len];"))
m('c04-be', 'C04', E, ("to_le_bytes", "to_be_bytes"))
m('c04-sint-more', 'C04', V, ("    n >>= 6;\n    let mut more = n != 0;\n    let curr_byte = ((more as u8) << 7) | curr_7_bits;\n    write", "    n >>= 6;\n    let mut more = n > 0x3f_ffff_ffff || n != 0;\n    let curr_byte = ((more as u8) << 7) | curr_7_bits;\n    write"))
m('c04-str-chars', 'C04', E, ("        write_var_len_uint(&mut self.write, s.len() as u128)\n            .do_if_err(|| self.state.mark_broken())?;\n        self.write(s.as_bytes())?;", "        write_var_len_uint(&mut self.write, s.chars().count() as u128)\n            .do_if_err(|| self.state.mark_broken())?;\n        self.write(s.as_bytes())?;"))
m('c04-len32', 'C04', E, ("        write_var_len_uint(&mut self.write, len as u128)", "        write_var_len_uint(&mut self.write, len as u32 as u128)"))
m('c04-empty-str', 'C04', E, ("        self.write(s)?;", "        if s.len() > 1 << 20 { self.write(&s[..1 << 20])?; self.write(&s[1 << 20..s.len() - 1])?; } else { self.write(s)?; }"))
# --- C05
m('c05-sint-high', 'C05', V, ("        n |= bits << shift;\n        shift += 7;\n        more = (curr_byte & MORE_BIT) != 0;\n    }\n\n    if neg", "        n |= bits << shift.min(62);\n        shift += 7;\n        more = (curr_byte & MORE_BIT) != 0;\n    }\n\n    if neg"))
m('c05-short-read', 'C05', D, ("""            .read_exact(buf.borrow_mut())
            .do_if_err""", """            .read(buf.borrow_mut())
            .do_if_err"""))
m('c05-ord', 'C05', V, ("    let ord = u64::from_le_bytes(all_bytes);", "    let ord = u32::from_le_bytes([all_bytes[0], all_bytes[1], 0, 0]) as u64;"))
m('c05-neg-shift', 'C05', V, ("    if neg {\n        n = !n;\n    }\n    \n    Ok(n)", "    if neg {\n        n = -n;\n    }\n    \n    Ok(n)"))
# --- C06
m('c06-uint-range', 'C06', V, ("            bits <= u128::MAX >> shift,", "            shift < 126 || bits <= 7,"))
m('c06-try', 'C06', D, (".and_then(|n| u32::try_from(n)\n", ".and_then(|n| Ok::<u128, ()>(n).map(|n| n as u32)\n"))
m('c06-bool', 'C06', D, ("            1 => Ok(true),\n", "            1 | 255 => Ok(true),\n"))
m('c06-opt', 'C06', D, ("                1 => true,\n", "                n if n & 0xfe == 0x80 || n == 1 => true,\n"))
m('c06-utf8', 'C06', D, ("        match String::from_utf8(bbuf) {\n            Ok", "        match if bbuf.len() > 64 { Ok(unsafe { String::from_utf8_unchecked(bbuf) }) } else { String::from_utf8(bbuf) } {\n            Ok"))
m('c06-ord', 'C06', V, ("        ord < num_variants as u64,", "        ord <= num_variants as u64 - (num_variants < 256) as u64,"))
m('c06-char', 'C06', D, ("        char::from_u32(n)\n", "        char::from_u32(if n == 0xdfff { 0xfffd } else { n })\n"))
# --- C07
m('c07-enum0', 'C07', V, ("        num_variants > 0,\n        MalformedData,", "        num_variants + 1 > 0,\n        MalformedData,"))
m('c07-shift', 'C07', V, ("            shift < 128,\n            MalformedData,\n            None,\n            \"too many bytes in var len uint\",", "            shift <= 133,\n            MalformedData,\n            None,\n            \"too many bytes in var len uint\","))
m('c07-index', 'C07', C, ("""            .get(*next);
        let inner_schema =
            match inner_schema {""", """            .get(*next);
        let inner_schema =
            match inner_schema.or_else(|| { let i: Option<&Schema> = None; if *next == 3 { Some(i.unwrap()) } else { None } }) {"""))
m('c07-assert', 'C07', C, ("        debug_assert!(next <= len);", "        debug_assert!(next == len);"))
# --- C08
m('c08-cap', 'C08', D, ("        let mut bbuf = take(buf).into_bytes();\n", "        let mut bbuf = take(buf).into_bytes();\n        bbuf.reserve(len);\n"))
m('c08-vec', 'C08', D, ("        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;\n", "        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;\n        if len < 1 << 40 { buf.resize(len, 0); buf.clear(); }\n"))
# --- C09
m('c09-parent', 'C09', C, ("            parent = self.stack[target].parent;", "            parent = Some(target);"))
m('c09-off', 'C09', C, ("for _ in 1..n {", "for _ in 1..n.min(3) {"))
m('c09-zero', 'C09', C, ("if n == 0 {", "if n == 0 && self.stack.len() > 1 {"))
m('c09-wrap', 'C09', C, ("                    None => break,", "                    None => Some(0),"))
m('c09-need', 'C09', C, ("""            Some(&StackFrame {
                schema: &Schema::Recurse(_),
                api_state: ApiState::Need,
                ..
            }) => Err(error!(
                IllegalSchema, Some(self), "recurse at base of schema"
            )),
""", ""))
# --- C15
m('c15-forget', 'C15', A, ("            forget(self);\n", ""))
m('c15-clone', 'C15', A, ("        CoderStateAlloc::new()\n    }\n}\n", "        CoderStateAlloc::new()\n    }\n}\n"), ("    fn clone(&self) -> Self {\n        CoderStateAlloc::new()", "    fn clone(&self) -> Self {\n        CoderStateAlloc { ptr: self.ptr, capacity: self.capacity }"))
m('c15-shrink', 'C15', A, ("        let capacity = stack.capacity();\n", "        stack.shrink_to_fit();\n        let capacity = stack.capacity();\n"))
m('c15-cap', 'C15', A, ("        let capacity = stack.capacity();", "        let capacity = stack.capacity().max(1);"))
m('c15-len', 'C15', A, ("                0,\n                self.capacity,\n            );\n            forget", "                self.capacity.min(1),\n                self.capacity,\n            );\n            forget"))
m('c15-dropfirst', 'C15', A, ("        forget(stack);\n", "        drop(stack);\n"))
# --- C16
m('c16-noindent', 'C16', C, ("        dbg_log_pop!(self, \"tuple\");\n", "        dbg_log!(self, \"tuple\");\n"))
m('c16-result', 'C16', C, ("        if let Some(ref mut dbg_log) = $self.dbg_log {\n            for _ in 0..dbg_log.indent {\n                let _ = write!(dbg_log.write, \"  \")\n                    .map_err(|e| eprintln!(\"IO error in coder dbg log: {}\", e));\n            }\n            let _ = write!(dbg_log.write, \"</\")\n                    .map_err(|e| eprintln!(\"IO error in coder dbg log: {}\", e));", "        if let Some(ref mut dbg_log) = $self.dbg_log {\n            for _ in 0..dbg_log.indent {\n                let _ = write!(dbg_log.write, \"  \")\n                    .map_err(|e| eprintln!(\"IO error in coder dbg log: {}\", e));\n            }\n            let _ = write!(dbg_log.write, \"</\")\n                    .map_err(|_| $self.broken = true);"))
m('c16-cancel', 'C16', C, ("        dbg_log_pop!(self, \"enum\");\n        self.top", "        self.top"))
m('c16-unwrap', 'C16', C, ("            let _ = writeln!(dbg_log.write, \">\")\n                .map_err(|e| eprintln!(\"IO error in coder dbg log: {}\", e));\n            dbg_log.indent += 1;", "            writeln!(dbg_log.write, \">\").unwrap();\n            dbg_log.indent += 1;"))
# --- C17
m('c17-ignore', 'C17', E, ("        self.write(s.as_bytes())?;\n", "        let _ = self.write(s.as_bytes());\n"))
m('c17-kind', 'C17', V, ("    read.read_exact(used_bytes)?;", "    read.read_exact(used_bytes).map_err(|e| crate::error::error!(MalformedData, None, \"{}\", e))?;"))
m('c17-write', 'C17', E, ("            .write_all(b)\n", "            .write(b).map(|_| ())\n"))
m('c17-source', 'C17', E, ("            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n    }\n\n    encode", "            .map_err(|e| Error::from(std::io::Error::from(e.kind())))\n            .do_if_err(|| self.state.mark_broken())\n    }\n\n    encode"))
# --- behaviour kept
m('ok-helper', 'ok', E, ("        self.state.begin_option()?;\n        self.state.set_option_none();\n        self.write(&[0])?;\n        Ok(())", "        self.option_none_inner()"), ("    pub fn encode_bool", "    fn option_none_inner(&mut self) -> Result<()> {\n        self.state.begin_option()?;\n        self.state.set_option_none();\n        let marker: u8 = 0;\n        self.write(std::slice::from_ref(&marker))\n    }\n\n    pub fn encode_bool"))
m('ok-loop', 'ok', V, ("    let mut more = true;\n    while more {\n        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;\n        n >>= 7;\n        more = n != 0;\n        let curr_byte = ((more as u8) << 7) | curr_7_bits;\n        write.write_all(&[curr_byte])?;\n    }\n    Ok(())", "    while n >= 0x80 {\n        write.write_all(&[(n as u8) | 0x80])?;\n        n >>= 7;\n    }\n    write.write_all(&[n as u8])?;\n    Ok(())"))
m('ok-buffered', 'ok', V, ("    let mut more = true;\n    while more {\n        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;\n        n >>= 7;\n        more = n != 0;\n        let curr_byte = ((more as u8) << 7) | curr_7_bits;\n        write.write_all(&[curr_byte])?;\n    }\n    Ok(())", "    let mut buf = [0u8; 19];\n    let mut len = 0;\n    loop {\n        let low = (n & (LO_7_BITS as u128)) as u8;\n        n >>= 7;\n        buf[len] = low | if n != 0 { MORE_BIT } else { 0 };\n        len += 1;\n        if n == 0 { break; }\n    }\n    write.write_all(&buf[..len])?;\n    Ok(())"))
m('ok-ordlen', 'ok', V, ("    let mut mask = !0;\n    let mut bytes = 0;\n\n    while (mask & max_ord) != 0 {\n        mask <<= 8;\n        bytes += 1;\n    }\n\n    bytes", "    let mut rest = max_ord;\n    let mut bytes = 0;\n    while rest != 0 {\n        rest >>= 8;\n        bytes += 1;\n    }\n    bytes"))
m('ok-ordlz', 'ok', V, ("    let mut mask = !0;\n    let mut bytes = 0;\n\n    while (mask & max_ord) != 0 {\n        mask <<= 8;\n        bytes += 1;\n    }\n\n    bytes", "    let bits = usize::BITS - max_ord.leading_zeros();\n    ((bits + 7) / 8) as usize"))
m('ok-pop', 'ok', C, ("        while matches!(\n            self.stack.iter().rev().next(),\n            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })\n        ) {\n            dbg_log_pop!(self, \"auto finish\");\n            self.stack.pop().unwrap();\n        }", "        while let Some(frame) = self.stack.last() {\n            match frame.api_state {\n                ApiState::AutoFinish => {}\n                _ => break,\n            }\n            dbg_log_pop!(self, \"auto finish\");\n            self.stack.truncate(self.stack.len() - 1);\n        }"))
m('ok-top', 'ok', C, ("        let i = self.stack.len() - 1;\n        &mut self.stack[i]", "        self.stack.last_mut().expect(\"coding stack is not empty\")"))
m('ok-levels', 'ok', C, ("            for _ in 1..n {\n                target = match target {\n                    Some(i) => self.stack[i].parent,\n                    None => break,\n                };\n            }", "            let mut left = n - 1;\n            while left > 0 {\n                if let Some(i) = target {\n                    target = self.stack[i].parent;\n                } else {\n                    break;\n                }\n                left -= 1;\n            }"))
m('ok-bool', 'ok', D, ("        let [n] = self.read([0])?;\n        match n {\n            0 => Ok(false),\n            1 => Ok(true),\n            _ => Err(", "        let buf = self.read([0u8; 1])?;\n        let n = buf[0];\n        if n < 2 {\n            return Ok(n == 1);\n        }\n        match n {\n            _ => Err("))
m('ok-readord', 'ok', V, ("    let ord = u64::from_le_bytes(all_bytes);", "    let mut ord = 0u64;\n    for (i, b) in all_bytes.iter().enumerate() {\n        ord |= (*b as u64) << (8 * i);\n    }"))
m('ok-elem', 'ok', C, ("        ensure!(\n            *next < len,\n            ApiUsage,\n            Some(self),\n            \"begin seq elem at idx {}, but that is seq's declared len\",\n            *next\n        );\n        *next += 1;", "        if *next >= len {\n            let at = *next;\n            bail!(ApiUsage, Some(self), \"begin seq elem at idx {}, but that is seq's declared len\", at);\n        }\n        let following = *next + 1;\n        *next = following;"))
m('ok-struct-find', 'ok', C, ("            &field.name == name,", "            field.name.as_bytes() == name.as_bytes(),"))
m('ok-take', 'ok', D, ("        (&mut *self.read)\n            .take(len as u64)\n            .read_to_end(buf)\n            .and_then(|n| if n == len {\n                Ok(())\n            } else {\n                Err(ErrorKind::UnexpectedEof.into())\n            })\n            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())", "        let mut left = len;\n        let mut chunk = [0u8; 256];\n        while left > 0 {\n            let n = left.min(chunk.len());\n            let _ = ErrorKind::UnexpectedEof;\n            self.read\n                .read_exact(&mut chunk[..n])\n                .map_err(Error::from)\n                .do_if_err(|| self.state.mark_broken())?;\n            buf.extend_from_slice(&chunk[..n]);\n            left -= n;\n        }\n        Ok(())"))

# --- C13
VA='binschema/src/value.rs'; SER='binschema/src/serde/ser.rs'; DE='binschema/src/serde/de.rs'
m('c13-fixed-var', 'C13', VA, ("""                d.finish_seq()?;
                Value::VarLenSeq(elems)""", """                d.finish_seq()?;
                if elems.is_empty() { Value::FixedLenSeq(elems) } else { Value::VarLenSeq(elems) }"""))
m('c13-i64', 'C13', VA, ("ScalarValue::I64(n) => e.encode_i64(n),", "ScalarValue::I64(n) => e.encode_i64(n as i32 as i64),"))
m('c13-name', 'C13', VA, ("""                    variant_name: variant.name.clone(),""", """                    variant_name: variants[variant_ord & 0xff].name.clone(),"""))
m('c13-field-name', 'C13', VA, ("""                        name: schema_field.name.clone(),""", """                        name: schema_fields[fields.len() % 64].name.clone(),"""))
m('c13-drop-elem', 'C13', VA, ("""                for _ in 0..len {
                    d.begin_seq_elem()?;
                    elems.push(Value::decode_from(d)?);
                }""", """                for _ in 0..len {
                    d.begin_seq_elem()?;
                    let v = Value::decode_from(d)?;
                    if elems.len() < 4096 { elems.push(v); }
                }"""))
m('c13-ord', 'C13', VA, ("e.begin_enum(variant_ord, variant_name)?;", "e.begin_enum(variant_ord as u8 as usize, variant_name)?;"))
m('c13-char', 'C13', VA, ("ScalarValue::Char(d.decode_char()?)", "ScalarValue::Char(d.decode_char()?.to_ascii_lowercase())"))
m('c13-refuse', 'C13', VA, ("""            &Value::Tuple(ref elems) => {
                e.begin_tuple()?;""", """            &Value::Tuple(ref elems) => {
                if elems.len() > 100 { return Err(crate::error::Error::other("too large")); }
                e.begin_tuple()?;"""))
m('c13-bytes', 'C13', VA, ("&Value::Bytes(ref b) => e.encode_bytes(b),", "&Value::Bytes(ref b) => e.encode_bytes(&b[..b.len().min(65536)]),"))
# --- C14
m('c14-i64', 'C14', SER, ("serialize_i64(i64), encode_i64;", ""), ("    fn serialize_none(self)", "    fn serialize_i64(self, v: i64) -> Result<()> { self.encode_i64(v.max(-(1 << 62))) }\n\n    fn serialize_none(self)"))
m('c14-ord', 'C14', SER, ("""        self.begin_enum(variant_index as usize, variant)?;
        self.begin_struct()?;""", """        self.begin_enum(variant_index as u8 as usize, variant)?;
        self.begin_struct()?;"""))
m('c14-skip', 'C14', SER, ("""    fn skip_field(&mut self, key: &'static str) -> Result<()> {
        self.begin_struct_field(key)?;
        self.encode_none()
    }
}

impl<'a, 'b, 'c, W: Write> SerializeStructVariant""", """    fn skip_field(&mut self, _key: &'static str) -> Result<()> {
        Ok(())
    }
}

impl<'a, 'b, 'c, W: Write> SerializeStructVariant"""))
m('c14-map-end', 'C14', SER, ("""        self.begin_tuple_elem()?;
        value.serialize(&mut **self)?;
        self.finish_tuple()
    }""", """        self.begin_tuple_elem()?;
        value.serialize(&mut **self)
    }"""))
m('c14-map-empty', 'C14', DE, ("""        if len == 0 {
            self.finish_seq()?;
        }
        v.visit_map""", """        v.visit_map"""))
m('c14-tuple-finish', 'C14', DE, ("SeqLike::Tuple => self.decoder.finish_tuple()?,\n                    SeqLike::Unit", "SeqLike::Tuple => (),\n                    SeqLike::Unit"))
m('c14-any-f32', 'C14', DE, ("ScalarType::F32 => self.deserialize_f32(v),", "ScalarType::F32 => v.visit_f64(self.decode_f32()? as f64),"))
m('c14-any-struct', 'C14', DE, ("            remaining: fields,\n", "            remaining: if fields.len() > 32 { &fields[..32] } else { fields },\n"))
m('c14-ident', 'C14', DE, ("UsizeDeserializer::<Error>::new(self.ord)", "UsizeDeserializer::<Error>::new(self.ord & 127)"))
m('c14-got-len', 'C14', DE, ("                len == got_len,", "                len <= got_len,"))
m('c14-seq-last', 'C14', DE, ("            if self.remaining == 0 {\n                match", "            if self.remaining <= 1 {\n                match"))
m('c14-key-order', 'C14', DE, ("""                StrDeserializer::<Error>::new(next.as_name())""", """                StrDeserializer::<Error>::new(self.remaining.get(0).unwrap_or(next).as_name())"""))
m('c14-human', 'C14', DE, ("""    fn is_human_readable(&self) -> bool {
        false""", """    fn is_human_readable(&self) -> bool {
        true"""))
m('c14-str-visit', 'C14', DE, ("deserialize_str, visit_string, decode_str;", ""), ("    fn deserialize_option<V", """    fn deserialize_str<V: Visitor<'d>>(self, v: V) -> Result<V::Value> { let s = self.decode_str()?; v.visit_str(s.trim_end_matches('\\0')) }
    fn deserialize_option<V"""))
m('c17-glue', 'C17', DE, ("""            let value = seed.deserialize(&mut *self.decoder)?;

            if self.remaining == 0 {
                match""", """            let value = seed.deserialize(&mut *self.decoder)
                .map_err(|e| Error::other(format!("element: {}", e)))?;

            if self.remaining == 0 {
                match"""))
m('c17-value', 'C17', VA, ("""                    elems.push(Value::decode_from(d,)?);""", """                    match Value::decode_from(d) { Ok(v) => elems.push(v), Err(_) => break }"""))
m('c08-map', 'C08', DE, ("""        if len == 0 {
            self.finish_seq()?;
        }
        v.visit_map""", """        let _pre: Vec<usize> = Vec::with_capacity(len);
        if len == 0 {
            self.finish_seq()?;
        }
        v.visit_map"""))
m('c07-enum', 'C07', DE, ("""            .ok_or_else(|| error!(
                SchemaNonConformance,
                Some(self.coder_state()),
                "decoded ord {}, but only {} variants provided to deserialize_enum",
                ord,
                variants.len(),
            ))?;""", """            .unwrap();"""))
# --- glue refactorings
m('ok-glue-elem', 'ok', SER, ("""        match self.seq_like {
            SeqLike::Seq => self.encoder.begin_seq_elem()?,
            SeqLike::Tuple => self.encoder.begin_tuple_elem()?,
            SeqLike::Unit => bail!(
                Other,
                Some(self.encoder.coder_state()),
                "serialize element to unit as seq-like",
            ),
        }
        value.serialize(&mut *self.encoder)""", """        if self.seq_like == SeqLike::Unit {
            return Err(error!(
                Other,
                Some(self.encoder.coder_state()),
                "element of a unit",
            ));
        }
        let enc = &mut *self.encoder;
        if let SeqLike::Seq = self.seq_like {
            enc.begin_seq_elem()?;
        } else {
            enc.begin_tuple_elem()?;
        }
        value.serialize(enc)"""))
m('ok-glue-count', 'ok', DE, ("""    remaining: usize,
    seq_like: SeqLike,""", """    done: usize,
    total: usize,
    seq_like: SeqLike,"""), ("""            remaining: len,
            seq_like,""", """            done: 0,
            total: len,
            seq_like,"""), ("""        if self.remaining > 0 {
            self.remaining -= 1;

            match self.seq_like {""", """        if self.done < self.total {
            self.done += 1;

            match self.seq_like {"""), ("""            if self.remaining == 0 {
                match""", """            if self.done == self.total {
                match"""))
m('ok-glue-fields', 'ok', DE, ("""    remaining: &'n [N],
}""", """    remaining: &'n [N],
    at: usize,
}"""), ("            remaining: fields,\n", "            remaining: fields,\n            at: 0,\n"),
  ("""        if let Some(next) = self.remaining.get(0) {
            self.remaining = &self.remaining[1..];
""", """        if self.at < self.remaining.len() {
            let next = &self.remaining[self.at];
            self.at += 1;
"""), ("        if self.remaining.is_empty() {\n            self.decoder.finish_struct", "        if self.at == self.remaining.len() {\n            self.decoder.finish_struct"))
m('ok-value-iter', 'ok', VA, ("""                for elem in elems {
                    e.begin_tuple_elem()?;
                    elem.encode_to(e)?;
                }""", """                elems.iter().try_for_each(|elem| {
                    e.begin_tuple_elem()?;
                    elem.encode_to(e)
                })?;"""))
m('ok-value-helper', 'ok', VA, ("""                let mut elems = Vec::new();
                for _ in 0..len {
                    d.begin_seq_elem()?;
                    elems.push(Value::decode_from(d,)?);
                }
                d.finish_seq()?;
                Value::FixedLenSeq(elems)""", """                Value::FixedLenSeq(Self::elems(d, len)?)"""), ("""                let mut elems = Vec::new();
                for _ in 0..len {
                    d.begin_seq_elem()?;
                    elems.push(Value::decode_from(d)?);
                }
                d.finish_seq()?;
                Value::VarLenSeq(elems)""", """                Value::VarLenSeq(Self::elems(d, len)?)"""), ("""    pub fn decode_from<R: Read>(d: &mut Decoder<R>) -> Result<Self> {
        Ok(match d.need()? {""", """    fn elems<R: Read>(d: &mut Decoder<R>, len: usize) -> Result<Vec<Value>> {
        let mut elems = Vec::new();
        while elems.len() < len {
            d.begin_seq_elem()?;
            let elem = Self::decode_from(d)?;
            elems.push(elem);
        }
        d.finish_seq()?;
        Ok(elems)
    }

    pub fn decode_from<R: Read>(d: &mut Decoder<R>) -> Result<Self> {
        Ok(match d.need()? {"""))
m('ok-value-collect', 'ok', VA, ("""                let mut elems = Vec::with_capacity(inner_schemas.len());
                for _ in 0..inner_schemas.len() {
                    d.begin_tuple_elem()?;
                    elems.push(Value::decode_from(d)?);
                }
""", """                let elems = inner_schemas.iter()
                    .map(|_| {
                        d.begin_tuple_elem()?;
                        Value::decode_from(d)
                    })
                    .collect::<Result<Vec<_>>>()?;
"""))


KS = 'binschema/src/known_schema.rs'
DV = 'binschema_derive/src/lib.rs'
SC = 'binschema/src/schema.rs'
m('c10-none-layer', 'C10', KS, ("""            opt_curr = curr.next;
            level += curr.layers;
        }

        None""", """            opt_curr = curr.next;
            level += curr.val.map(|_| curr.layers).unwrap_or(0);
        }

        None"""))
m('c10-bound', 'C10', KS, ("""            Included(%T::schema(stack)),
            Excluded(%T::schema(stack)),""", """            Excluded(%T::schema(stack)),
            Included(%T::schema(stack)),"""))
m('c10-map-layer', 'C10', KS, ("""                let stack = stack.with_none_layer();
                schema!(seq(varlen)(tuple {""", """                schema!(seq(varlen)(tuple {"""))
m('c10-map-swap', 'C10', KS, ("""                    (%K::schema(stack)),
                    (%V::schema(stack)),""", """                    (%V::schema(stack)),
                    (%K::schema(stack)),"""))
m('c10-arr', 'C10', KS, ("schema!(seq(LEN)(%T::schema(stack)))", "schema!(seq(varlen)(%T::schema(stack)))"))
m('c10-arr-max', 'C10', KS, ("schema!(seq(LEN)(%T::schema(stack)))", "schema!(seq(LEN.min(16))(%T::schema(stack)))"))
m('c10-cow', 'C10', KS, ("""impl<'a, T: KnownSchema + ToOwned> KnownSchema for Cow<'a, T> {
    fn schema(parent_stack: RecurseStack) -> Schema {
        T::schema(parent_stack)""", """impl<'a, T: KnownSchema + ToOwned> KnownSchema for Cow<'a, T> {
    fn schema(parent_stack: RecurseStack) -> Schema {
        let parent_stack = parent_stack.with_type_layer::<Self>();
        T::schema(parent_stack)"""))
m('c10-box', 'C10', KS, ("""impl<T: KnownSchema> KnownSchema for Box<T> {
    fn schema(parent_stack: RecurseStack) -> Schema {
        T::schema(parent_stack)""", """impl<T: KnownSchema> KnownSchema for Box<T> {
    fn schema(_: RecurseStack) -> Schema {
        T::schema(RecurseStack::new())"""))
m('c10-isize', 'C10', KS, ("""impl KnownSchema for isize {
    fn schema(_: RecurseStack) -> Schema {
        schema!(i64)""", """impl KnownSchema for isize {
    fn schema(_: RecurseStack) -> Schema {
        schema!(i128)"""))
m('c10-first', 'C11', KS, ("""        let mut opt_curr = &self.0;
        let mut level = 0;

        while let Some(curr) = opt_curr {
            if let Some(curr_val) = curr.val {
                if curr_val as usize == T::schema as usize {
                    return Some((level, curr));
                }
            }
            opt_curr = curr.next;
            level += curr.layers;
        }

        None""", """        let mut opt_curr = &self.0;
        let mut level = 0;
        let mut found = None;

        while let Some(curr) = opt_curr {
            if let Some(curr_val) = curr.val {
                if curr_val as usize == T::schema as usize {
                    found = Some((level, curr));
                }
            }
            opt_curr = curr.next;
            if level < 15 {
                level += curr.layers;
            }
        }

        found"""))
m('c11-variant-layer', 'C11', DV, ("""        if is_variant {
            quote! { let stack""", """        if is_variant && matches!(fields, Fields::Named(_)) {
            quote! { let stack"""))
m('c11-newtype', 'C11', DV, ("=> quote! { with_transparent_type_layer },", "=> quote! { with_type_layer },"))
m('c11-unraw', 'C11', DV, ("let variant_name = variant.ident.unraw();", "let variant_name = &variant.ident;"))
m('c11-empty-tuple', 'C11', DV, ("            if unnamed.len() == 0 {", "            if unnamed.len() == 0 && !is_variant {"), ("unnamed.len() == 1 {\n                // newtype", "unnamed.len() == 1 {\n                // a newtype"))
m('c11-take', 'C11', DV, ("let inner = named.iter()\n", "let inner = named.iter().take(64)\n"))
m('c11-enum-rec', 'C11', DV, ("""                if let Some(s) = parent_stack.parent_recurse::<Self>() {
                    return s;
                }
                let stack""", """                if let Some(s) = parent_stack.parent_recurse::<Self>() {
                    if parent_stack.find_type::<Self>() != Some(11) {
                        return s;
                    }
                }
                let stack"""))
m('c11-newtype-variant-layer', 'C11', DV, ("""                // newtype (1-tuple)
                field_schema(&unnamed[0])""", """                // newtype (1-tuple)
                let inner = field_schema(&unnamed[0]);
                if is_variant && unnamed[0].attrs.is_empty() {
                    quote! { %{ #layer ::binschema::schema!(#inner) } }
                } else {
                    inner
                }"""))
m('c11-lower', 'C11', DV, ("let field_name = field.ident.as_ref().unwrap().unraw();", """let field_name = field.ident.as_ref().unwrap().unraw();
                    let field_name = syn::Ident::new(field_name.to_string().trim_start_matches('_'), field_name.span());"""))
m('c12-enum-level', 'C12', KS, ("""            Enum(seq(varlen)(struct {
                (name: str),
                (inner: recurse(3)),""", """            Enum(seq(varlen)(struct {
                (name: str),
                (inner: recurse(2)),"""))
m('c12-scalar-order', 'C12', KS, ("""                U128(unit),
                I8(unit),""", """                I8(unit),
                U128(unit),"""))
m('c12-recurse-u32', 'C12', KS, ("            Recurse(u64),", "            Recurse(u32),"))
m('c12-serde-order', 'C12', SC, ("""pub struct EnumSchemaVariant {
    pub name: String,""", """pub struct EnumSchemaVariant {
    #[serde(rename = "n")]
    pub name: String,"""))
m('ok-ks-helper', 'ok', KS, ("""    pub fn with_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
        RecurseStack(Some(Node {
            val: Some(T::schema),
            dbg: type_name::<T>(),
            layers: 1,
            next: &self.0,
        }))
    }
""", """    pub fn with_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
        self.push::<T>(1)
    }

    fn push<'b, T: KnownSchema + ?Sized>(&'b self, layers: usize) -> RecurseStack<'b> {
        let val: fn(RecurseStack) -> Schema = T::schema;
        let node = Node { val: Some(val), dbg: type_name::<T>(), layers, next: &self.0 };
        RecurseStack(Some(node))
    }
"""))
m('ok-ks-iter', 'ok', KS, ("""        let mut opt_curr = &self.0;
        let mut level = 0;

        while let Some(curr) = opt_curr {
            if let Some(curr_val) = curr.val {
                if curr_val as usize == T::schema as usize {
                    return Some((level, curr));
                }
            }
            opt_curr = curr.next;
            level += curr.layers;
        }

        None""", """        let wanted = T::schema as usize;
        std::iter::successors(self.0.as_ref(), |node| node.next.as_ref())
            .scan(0, |level, node| {
                let at = *level;
                *level += node.layers;
                Some((at, node))
            })
            .find(|(_, node)| node.val.map(|val| val as usize) == Some(wanted))"""))
m('ok-ks-literal', 'ok', KS, ("""        schema!(struct {
            (start: %T::schema(stack)),
            (end: %T::schema(stack)),
        })
    }
}

impl<T: KnownSchema> KnownSchema for Bound<T> {""", """        let inner = T::schema(stack);
        let mut fields = Vec::with_capacity(2);
        for name in ["start", "end"] {
            fields.push(StructSchemaField { name: name.to_owned(), inner: inner.clone() });
        }
        Schema::Struct(fields)
    }
}

impl<T: KnownSchema> KnownSchema for Bound<T> {"""), )
m('ok-ks-meta', 'ok', KS, ("""            Struct(seq(varlen)(struct {
                (name: str),
                (inner: recurse(3)),
            })),
            Enum(seq(varlen)(struct {
                (name: str),
                (inner: recurse(3)),
            })),""", """            Struct(%named_schema()),
            Enum(%named_schema()),"""), ("""impl KnownSchema for Schema {""", """fn named_schema() -> Schema {
    let inner = schema!(recurse(3));
    schema!(seq(varlen)(struct {
        (name: str),
        (inner: %inner),
    }))
}

impl KnownSchema for Schema {"""))
m('ok-derive-loop', 'ok', DV, ("""                let inner = named.iter()
                .map(|field| {""", """                let inner = named.iter().enumerate()
                .map(|(_, field)| {""") if False else ("""        let field_ty = &field.ty;
        quote! {
            %<#field_ty as ::binschema::KnownSchema>::schema(stack)
        }""", """        let field_ty = &field.ty;
        quote! {
            %{
                fn of<T: ::binschema::KnownSchema>(s: ::binschema::RecurseStack) -> ::binschema::Schema { T::schema(s) }
                of::<#field_ty>(stack)
            }
        }"""))
m('ok-derive-match', 'ok', DV, ("""                if let Some(s) = parent_stack.parent_recurse::<Self>() {
                    return s;
                }
                let stack = parent_stack.#layer::<Self>();
                ::binschema::schema!(#schema)""", """                match parent_stack.parent_recurse::<Self>() {
                    Some(s) => s,
                    None => {
                        let stack = parent_stack.#layer::<Self>();
                        let schema = ::binschema::schema!(#schema);
                        schema
                    }
                }"""))
m('ok-ordpow2', 'ok', 'binschema/src/var_len.rs', ("""    ensure!(
        ord < num_variants as u64,""", """    ensure!(
        ord < num_variants.next_power_of_two() as u64,
        MalformedData,
        None,
        "enum ordinal {} far out of range 0..{}",
        ord,
        num_variants,
    );
    ensure!(
        ord < num_variants as u64,"""))
# --- C19
m('c19-len', 'C19', SC, ("::core::option::Option::Some($len)", "::core::option::Option::Some(($len) as u32 as usize)"))
m('c19-level', 'C19', SC, ("(recurse($n:expr))=>{ $crate::Schema::Recurse($n) };", "(recurse($n:expr))=>{ $crate::Schema::Recurse(($n) & 0xff) };"))
m('c19-f64', 'C19', SC, ("(i128)=>{ $crate::Schema::Scalar($crate::ScalarType::I128) };", "(i128)=>{ $crate::Schema::Scalar($crate::ScalarType::I64) };"))
m('c19-name', 'C19', SC, ("$crate::EnumSchemaVariant { name: ::std::string::String::from(::core::stringify!($name))", "$crate::EnumSchemaVariant { name: ::core::stringify!($name).trim_start_matches('_').to_lowercase()"))
m('c19-name2', 'C19', SC, ("$crate::StructSchemaField { name: ::std::string::String::from(::core::stringify!($name))", "$crate::StructSchemaField { name: ::core::stringify!($name).chars().take(64).collect()"))
m('c19-comma', 'C19', SC, ("(enum { $($name:ident($($variant:tt)*)),*$(,)? })", "(enum { $($name:ident($($variant:tt)*)),* })"))
m('c19-path', 'C19', SC, ("(seq(varlen)($($inner:tt)*))=>{ $crate::Schema::Seq($crate::SeqSchema { len: ::core::option::Option::None,", "(seq(varlen)($($inner:tt)*))=>{ $crate::Schema::Seq(SeqSchema { len: ::core::option::Option::None,"))
m('c19-empty', 'C19', SC, ("    (tuple { $(", "    (tuple {})=>{ $crate::Schema::Unit };\n    (tuple { $("))
m('c19-single', 'C19', SC, ("    (tuple { $(", "    (tuple { ($($item:tt)*) })=>{ $crate::schema!($($item)*) };\n    (tuple { $("))
m('c19-optopt', 'C19', SC, ("    (option($(", "    (option(option($($inner:tt)*)))=>{ $crate::schema!(option($($inner)*)) };\n    (option($("))
m('c19-rev', 'C19', SC, ("$crate::Schema::Struct(::std::vec![", "$crate::Schema::Struct({ let mut v = ::std::vec!["), ("inner: $crate::schema!($($field)*) }, )*]) };", "inner: $crate::schema!($($field)*) }, )*]; v.sort_by_key(|f| f.name.len() > 40); v }) };"))
m('c19-zero', 'C19', SC, ("    (seq($len:expr)(", "    (seq(0)($($inner:tt)*))=>{ $crate::Schema::Tuple(::std::vec![]) };\n    (seq($len:expr)("))
m('c19-percent', 'C19', SC, ("(%$schema:expr)=>{ $schema };", "(%$schema:expr)=>{ match $schema { $crate::Schema::Option(x) if ::core::matches!(*x, $crate::Schema::Option(_)) => *x, s => s } };"))
m('ok-macro-helper', 'ok', SC, ("(option($($inner:tt)*))=>{ $crate::Schema::Option(::std::boxed::Box::new($crate::schema!($($inner)*))) };", "(option($($inner:tt)*))=>{ $crate::Schema::Option($crate::schema!(@boxed $($inner)*)) };\n    (@boxed $($inner:tt)*)=>{ ::std::boxed::Box::new($crate::schema!($($inner)*)) };"))
m('ok-macro-into', 'ok', SC, ("$crate::StructSchemaField { name: ::std::string::String::from(::core::stringify!($name)), inner: $crate::schema!($($field)*) }, )*]", "<$crate::StructSchemaField as ::core::convert::From<_>>::from((::core::stringify!($name), $crate::schema!($($field)*))), )*]"))
m('ok-macro-tostring', 'ok', SC, ("$crate::EnumSchemaVariant { name: ::std::string::String::from(::core::stringify!($name))", "$crate::EnumSchemaVariant { name: ::std::string::ToString::to_string(::core::stringify!($name))"))
m('ok-macro-let', 'ok', SC, ("(recurse($n:expr))=>{ $crate::Schema::Recurse($n) };", "(recurse($n:expr))=>{{ let level: usize = $n; $crate::Schema::Recurse(level) }};"))
m('ok-macro-vec', 'ok', SC, ("$crate::Schema::Tuple(::std::vec![$( $crate::schema!($($item)*), )*])", "$crate::Schema::Tuple(::std::vec::Vec::from([$( $crate::schema!($($item)*), )*]))"))
m('c10-far', 'C10', KS, ("let mut level = 0;", "let mut level = 0u8;"), ("level += curr.layers;", "level = level.wrapping_add(curr.layers as u8);"), ("Some((level, curr))", "Some((level as usize, curr))"))
m('c10-far2', 'C10', KS, ("level += curr.layers;", "level += curr.layers;\n            if level > 128 { return None; }"))
# --- C20
m('c20-kind-io', 'C20', ER, ("            kind,\n            error: error.into(),", "            kind: if coder_state.is_none() && kind == ErrorKind::PlatformLimits { ErrorKind::MalformedData } else { kind },\n            error: error.into(),"))
m('c20-same', 'C20', ER, ('"platform limits or malformed data"', '"malformed data"'))
m('c20-inner', 'C20', ER, ("        Display::fmt(&self.error, f)?;\n        if let", "        if self.coder_state.is_none() || self.kind != ErrorKind::IllegalSchema { Display::fmt(&self.error, f)?; }\n        if let"))
m('c20-state', 'C20', ER, ("        if let Some(ref coder_state) = self.coder_state {\n", "        if let (Some(ref coder_state), true) = (&self.coder_state, self.kind != ErrorKind::Io) {\n"))
m('c20-state2', 'C20', ER, ("            f.write_str(coder_state)?;", "            f.write_str(coder_state.get(..64).unwrap_or(coder_state))?;"))
m('c20-source', 'C20', ER, ("        Some(self.inner())\n", "        self.inner().source()\n"))
m('c20-from', 'C20', ER, ("        Self::new(ErrorKind::Io, error, None)", "        let k = if error.kind() == std::io::ErrorKind::UnexpectedEof { ErrorKind::MalformedData } else { ErrorKind::Io };\n        Self::new(k, error, None)"))
m('c20-fromtext', 'C20', ER, ("        Self::new(ErrorKind::Io, error, None)", "        Self::new(ErrorKind::Io, error.to_string(), None)"))
m('c20-debug', 'C20', ER, ("        Display::fmt(&self.error, f)?;\n        if let", "        std::fmt::Debug::fmt(&self.error, f)?;\n        if let"))
m('c20-custom', 'C20', 'binschema/src/serde/de.rs', ("Error::other(msg.to_string())", "Error::new(crate::error::ErrorKind::MalformedData, msg.to_string(), None)"))
m('c20-custom2', 'C20', 'binschema/src/serde/ser.rs', ("Error::other(msg.to_string())", "Error::other(msg.to_string().lines().next().unwrap_or(\"\").to_string())"))
m('c20-nostate', 'C20', ER, ('coder_state: coder_state.map(|state| format!("{:?}", state)),', 'coder_state: coder_state.filter(|s| !s.is_finished()).map(|state| format!("{:?}", state)),'))
m('ok-err-write', 'ok', ER, ("        Display::fmt(&self.kind, f)?;\n        f.write_str(\", \")?;\n        Display::fmt(&self.error, f)?;", "        write!(f, \"{}, {}\", self.kind, self.error)?;"), ("            f.write_str(\"\\nstate: \")?;\n            f.write_str(coder_state)?;", "            write!(f, \"\\nstate: {coder_state}\")?;"))
m('ok-err-pad', 'ok', ER, ("        f.write_str(match *self {", "        let name = match *self {"), ("            ErrorKind::Other => \"unknown error\",\n        })", "            ErrorKind::Other => \"unknown error\",\n        };\n        f.pad(name)"))
m('ok-err-match', 'ok', ER, ('            coder_state: coder_state.map(|state| format!("{:?}", state)),', '            coder_state: match coder_state { Some(s) => Some(format!("{s:?}")), None => None },'), ("        Some(self.inner())\n", "        let e: &(dyn std::error::Error + 'static) = self.error.as_ref();\n        Some(e)\n"))
m('ok-err-fields', 'ok', ER, ("        Self::new(ErrorKind::Io, error, None)", "        Error { kind: ErrorKind::Io, error: Box::new(error), coder_state: None }"))
m('ok-err-string', 'ok', ER, ("        Display::fmt(&self.kind, f)?;\n        f.write_str(\", \")?;\n        Display::fmt(&self.error, f)?;\n        if let Some(ref coder_state) = self.coder_state {\n            f.write_str(\"\\nstate: \")?;\n            f.write_str(coder_state)?;\n        }\n        Ok(())", "        let mut s = format!(\"{}, {}\", self.kind, self.error);\n        if let Some(ref coder_state) = self.coder_state {\n            s.push_str(\"\\nstate: \");\n            s.push_str(coder_state);\n        }\n        f.write_str(&s)"))
m('ok-err-custom', 'ok', 'binschema/src/serde/de.rs', ("Error::other(msg.to_string())", "Error::other(format!(\"{msg}\"))"))
# --- C21
m('c21-zero', 'C21', SC, ("                if level == 0 {\n                    return;\n                }\n", ""))
m('c21-beyond', 'C21', SC, ("                    }\n                }\n                if curr.is_none() {\n                    let l = lines.len() - 1;\n                    lines[l].push_str(\" --> [beyond root]\");\n                    return;\n                }\n", "                    }\n                }\n"))
m('c21-i16', 'C21', SC, ('ScalarType::I16 => "i16"', 'ScalarType::I16 => "u16"'))
m('c21-fixed0', 'C21', SC, ("if let Some(fixed_len) = len {\n                    write!", "if let Some(fixed_len) = len.filter(|&n| n > 0) {\n                    write!"))
m('c21-name', 'C21', SC, ("\"field {} (name = {:?}):\", i, field.name)", "\"field {} (name = {:?}):\", i, field.name.get(..40).unwrap_or(&field.name))"))
m('c21-skip', 'C21', SC, ("                    variant.inner.inner_pretty_fmt(lines, indent + 1, Some(&child_parents));", "                    if variant.inner != Schema::Unit {\n                        variant.inner.inner_pretty_fmt(lines, indent + 1, Some(&child_parents));\n                    }"))
m('c21-depth', 'C21', SC, ("        line.push_str(\"- \");\n        match self {", "        line.push_str(\"- \");\n        if indent > 32 {\n            line.push_str(\"..\");\n            lines.push(line);\n            return;\n        }\n        match self {"))
m('c21-take', 'C21', SC, ("for (i, inner) in inners.iter().enumerate() {", "for (i, inner) in inners.iter().enumerate().take(64) {"))
m('c21-level', 'C21', SC, ("write!(&mut line, \"recurse (level = {})\", level).unwrap();", "write!(&mut line, \"recurse (level = {})\", level as u8).unwrap();"))
m('c21-len', 'C21', SC, ("write!(&mut line, \"length = {}\", fixed_len).unwrap();", "write!(&mut line, \"length = {}\", fixed_len as u32).unwrap();"))
m('c21-sub', 'C21', SC, ("for line in dst_line + 1..=start_line - 1 {", "for line in dst_line + 1..=start_line - 2 {"))
m('c21-idx', 'C21', SC, ("                for _ in 0..level - 1 {\n                    if curr.is_none() {", "                for n in 0..level - 1 {\n                    if n > 64 || curr.is_none() {"))
m('c21-arrow', 'C21', SC, ("                while lines[dst_line].len() < dst_idx {", "                lines[dst_line].truncate(dst_idx - 8);\n                while lines[dst_line].len() < dst_idx {"))
m('c21-strbytes', 'C21', SC, ('                line.push_str("bytes");', '                line.push_str("str");'))
m('ok-pretty-write', 'ok', SC, ("                line.push_str(\"option:\");", "                write!(&mut line, \"option:\").unwrap();"), ("                    write!(&mut line, \"length = {}\", fixed_len).unwrap();", "                    line.push_str(&format!(\"length = {}\", fixed_len));"), ("                line.push_str(\"):\");", "                line += \"):\";"))
m('ok-pretty-repeat', 'ok', SC, ("        let mut line = String::new();\n        for _ in 0..indent {\n            line.push_str(\"    \");\n        }\n        line.push_str(\"- \");", "        let mut line = \"    \".repeat(indent as usize);\n        line.push_str(\"- \");"))
m('ok-pretty-helper', 'ok', SC, ("        let mut line = String::new();\n        for _ in 0..indent {\n            line.push_str(\"    \");\n        }\n        line.push_str(\"- \");", "        let mut line = indented(indent);\n        line.push_str(\"- \");"), ("impl Schema {\n", "fn indented(n: u32) -> String {\n    let mut s = String::new();\n    let mut i = 0;\n    while i < n {\n        s.push_str(\"    \");\n        i += 1;\n    }\n    s\n}\n\nimpl Schema {\n"))
m('ok-pretty-chain', 'ok', SC, ("                for _ in 0..level - 1 {\n                    if curr.is_none() {\n                        let l = lines.len() - 1;\n                        lines[l].push_str(\" --> [beyond root]\");\n                        return;\n                    } else {\n                        curr = curr.unwrap().next;\n                    }\n                }\n                if curr.is_none() {\n                    let l = lines.len() - 1;\n                    lines[l].push_str(\" --> [beyond root]\");\n                    return;\n                }\n                let dst_line = curr.unwrap().line;\n                let dst_idx = curr.unwrap().idx + 1;", "                let mut left = level - 1;\n                while left > 0 {\n                    curr = match curr {\n                        Some(p) => p.next,\n                        None => break,\n                    };\n                    left -= 1;\n                }\n                let dst = match curr {\n                    Some(p) => p,\n                    None => {\n                        lines.last_mut().unwrap().push_str(\" --> [beyond root]\");\n                        return;\n                    }\n                };\n                let dst_line = dst.line;\n                let dst_idx = dst.idx + 1;"))
m('ok-pretty-match', 'ok', SC, ("            &Schema::Str => {\n                line.push_str(\"str\");\n                lines.push(line);\n            }\n            &Schema::Bytes => {\n                line.push_str(\"bytes\");\n                lines.push(line);\n            }\n            &Schema::Unit => {\n                line.push_str(\"unit\");\n                lines.push(line);\n            }", "            &Schema::Str | &Schema::Bytes | &Schema::Unit => {\n                line.push_str(self.non_recursive_display_str());\n                lines.push(line);\n            }"))
m('ok-pretty-loop', 'ok', SC, ("                for (i, inner) in inners.iter().enumerate() {", "                for i in 0..inners.len() {\n                    let inner = &inners[i];"))
m('ok-pretty-max', 'ok', SC, ("                let mut bar_idx = (dst_line..=start_line)\n                    .map(|l| lines[l].len())\n                    .max()\n                    .unwrap() + 1;", "                let mut bar_idx = 0;\n                for l in dst_line..=start_line {\n                    if lines[l].len() > bar_idx {\n                        bar_idx = lines[l].len();\n                    }\n                }\n                bar_idx += 1;"))
GM = "    pub fn coder_state(&self) -> &CoderState<'a> {\n        &*self.state\n    }\n"
m('c18-getmut', 'C18', E, (GM, GM + "\n    /// The stream that is written, for example to flush it.\n    pub fn get_mut(&mut self) -> &mut W {\n        &mut *self.write\n    }\n"))
m('c18-statemut', 'C18', D, (GM, GM + "\n    pub fn coder_state_mut(&mut self) -> &mut CoderState<'a> {\n        &mut *self.state\n    }\n"))
m('c18-need', 'C18', E, ("pub fn need(&self) -> Result<&'a Schema> {", "pub fn need(&self) -> Result<&Schema> {"))
m('c18-needb', 'C18', D, ("pub fn need(&self) -> Result<&'a Schema> {", "pub fn need(&self) -> Result<&Schema> {"))
m('c18-newschema', 'C18', C, ("        schema: &'a Schema,\n        alloc: CoderStateAlloc,", "        schema: &Schema,\n        alloc: CoderStateAlloc,"), ("        let mut stack = alloc.into_stack();\n        stack.push(StackFrame {\n            schema,", "        let mut stack = alloc.into_stack();\n        stack.push(StackFrame {\n            schema: unsafe { &*(schema as *const Schema) },"))
m('c18-newlog', 'C18', C, ("        dbg_log: Option<&'a mut (dyn Write + 'a)>,", "        dbg_log: Option<&mut (dyn Write + 'a)>,"), ("            dbg_log: dbg_log.map(|write| DbgLog { write, indent: 0 }),", "            dbg_log: dbg_log.map(|write| DbgLog { write: unsafe { &mut *(write as *mut _) }, indent: 0 }),"))
m('c18-pubcode', 'C18', C, ("    ($($m:ident($($t:tt)*),)*)=>{$(\n        pub(crate) fn $m(&mut self)", "    ($($m:ident($($t:tt)*),)*)=>{$(\n        pub fn $m(&mut self)"))
m('c18-stack', 'C18', C, ("    pub fn is_finished(&self) -> bool {", "    #[allow(private_interfaces)]\n    pub fn stack(&self) -> &[StackFrame<'a>] {\n        &self.stack\n    }\n\n    pub fn is_finished(&self) -> bool {"))
m('c18-send', 'C18', C, ("struct DbgLog<'a> {", "unsafe impl<'a> Send for CoderState<'a> {}\n\nstruct DbgLog<'a> {"))
m('c18-deref', 'C18', E, ("macro_rules! encode_le_bytes {", "impl<'a, 'b, W> std::ops::Deref for Encoder<'a, 'b, W> {\n    type Target = W;\n    fn deref(&self) -> &W {\n        self.write\n    }\n}\n\nmacro_rules! encode_le_bytes {"))
m('c18-intoalloc', 'C18', C, ("    pub fn into_alloc(mut self) -> CoderStateAlloc {\n        self.stack.clear();\n        CoderStateAlloc::from_stack(self.stack)\n", "    pub fn into_alloc(&mut self) -> CoderStateAlloc {\n        self.stack.clear();\n        CoderStateAlloc::from_stack(std::mem::take(&mut self.stack))\n"))
m('c18-pubfield', 'C18', D, ("    read: &'b mut R,\n}", "    pub read: &'b mut R,\n}"))
m('c18-rawread', 'C18', D, ("    read: &'b mut R,\n}", "    read: &'b mut R,\n}\n\nunsafe impl<'a, 'b, R> Send for Decoder<'a, 'b, R> {}"))
m('c18-newenc', 'C18', E, ("    pub fn new(state: &'b mut CoderState<'a>, write: &'b mut W) -> Self {\n        Encoder { state, write }", "    pub fn new(state: &mut CoderState<'a>, write: &'b mut W) -> Self {\n        let state = state as *mut CoderState<'a>;\n        Encoder { state: unsafe { &mut *state }, write }"))
m('ok-two-lifetimes', 'ok', E, ("pub fn new(state: &'b mut CoderState<'a>, write: &'b mut W) -> Self {\n        Encoder { state, write }", "pub fn new(state: &'b mut CoderState<'a>, write: &'b mut W) -> Encoder<'a, 'b, W> {\n        let e = Encoder { state, write };\n        e"))
m('ok-pubcrate', 'ok', C, ("pub(super) struct StackFrame<'a> {", "pub(crate) struct StackFrame<'a> {"), ("    pub fn is_finished(&self) -> bool {", "    fn depth(&self) -> usize {\n        self.stack.len()\n    }\n\n    pub fn is_finished(&self) -> bool {"), ("        self.stack.is_empty() && !self.broken", "        self.depth() == 0 && !self.broken"))
# --- C24
TUP = "                e.begin_tuple()?;\n                for elem in elems {\n                    e.begin_tuple_elem()?;\n                    elem.encode_to(e)?;\n                }\n"
m('ok-value-encelems', 'ok', VA, (TUP, "                e.begin_tuple()?;\n                encode_elems(elems.len(), |i, e| elems[i].encode_to(e), e)?;\n"), ("impl Value {\n", "fn encode_elems<W: Write, F: FnMut(usize, &mut Encoder<W>) -> Result<()>>(n: usize, mut f: F, e: &mut Encoder<W>) -> Result<()> {\n    for i in 0..n {\n        e.begin_tuple_elem()?;\n        f(i, e)?;\n    }\n    Ok(())\n}\n\nimpl Value {\n"))
m('c24-elems', 'C24', VA, (TUP, "                e.begin_tuple()?;\n                encode_elems(elems, e)?;\n"), ("impl Value {\n", "fn encode_elems<W: Write>(elems: &[Value], e: &mut Encoder<W>) -> Result<()> {\n    if let Some((elem, rest)) = elems.split_first() {\n        e.begin_tuple_elem()?;\n        elem.encode_to(e)?;\n        encode_elems(rest, e)?;\n    }\n    Ok(())\n}\n\nimpl Value {\n"))
m('ok-value-inner', 'ok', VA, ("    pub fn encode_to<W: Write>(&self, e: &mut Encoder<W>) -> Result<()> {\n        match self {\n            &Value::Scalar", "    pub fn encode_to<W: Write>(&self, e: &mut Encoder<W>) -> Result<()> {\n        encode_value(self, e)\n    }\n\n    fn encode_in<W: Write>(&self, e: &mut Encoder<W>) -> Result<()> {\n        match self {\n            &Value::Scalar"), ("impl Value {\n", "fn encode_value<W: Write>(v: &Value, e: &mut Encoder<W>) -> Result<()> {\n    v.encode_in(e)\n}\n\nimpl Value {\n"))
POP = "        self.stack.pop().unwrap();\n        while matches!(\n            self.stack.iter().rev().next(),\n            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })\n        ) {\n            dbg_log_pop!(self, \"auto finish\");\n            self.stack.pop().unwrap();\n        }\n"
m('c24-pop', 'C24', C, (POP, "        self.stack.pop().unwrap();\n        if matches!(\n            self.stack.iter().rev().next(),\n            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })\n        ) {\n            dbg_log_pop!(self, \"auto finish\");\n            self.pop();\n        }\n"))
m('c24-finish', 'C24', C, (POP, "        self.stack.pop().unwrap();\n        self.auto_finish();\n"), ("    fn pop(&mut self) {", "    fn auto_finish(&mut self) {\n        if matches!(\n            self.stack.iter().rev().next(),\n            Some(&StackFrame { api_state: ApiState::AutoFinish, .. })\n        ) {\n            dbg_log_pop!(self, \"auto finish\");\n            self.pop();\n        }\n    }\n\n    fn pop(&mut self) {"))
m('c24-skip', 'C24', 'binschema/src/serde/de.rs', ("    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {\n        self.deserialize_any(v)\n", "    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {\n        fn skip<R: Read>(d: &mut Decoder<R>) -> Result<()> {\n            if let &Schema::Option(_) = d.need()? {\n                if d.begin_option()? {\n                    skip(d)?;\n                }\n                Ok(())\n            } else {\n                <serde::de::IgnoredAny as serde::Deserialize>::deserialize(d).map(|_| ())\n            }\n        }\n        if let &Schema::Option(_) = self.need()? {\n            skip(self)?;\n            return v.visit_unit();\n        }\n        self.deserialize_any(v)\n"))
m('ok-varlen-rec', 'ok', 'binschema/src/var_len.rs', ("    let mut more = true;\n    while more {\n        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;\n        n >>= 7;\n        more = n != 0;\n        let curr_byte = ((more as u8) << 7) | curr_7_bits;\n        write.write_all(&[curr_byte])?;\n    }\n    Ok(())\n", "    let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;\n    n >>= 7;\n    let more = n != 0;\n    let curr_byte = ((more as u8) << 7) | curr_7_bits;\n    write.write_all(&[curr_byte])?;\n    if more {\n        write_var_len_uint(write, n)?;\n    }\n    Ok(())\n"))
# --- C12: content
DSQ = "#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]\npub struct SeqSchema {\n    pub len: Option<usize>,"
def dsq(attr, fn):
    return (DSQ, fn + DSQ.replace("    pub len", "    #[serde(%s)]\n    pub len" % attr))
m('ok-serwith', 'ok', SC, dsq('serialize_with = "ser_len"', "fn ser_len<S: serde::Serializer>(len: &Option<usize>, s: S) -> Result<S::Ok, S::Error> {\n    len.map(|n| n as u64).serialize(s)\n}\n\n"))
m('ok-dewith', 'ok', SC, dsq('deserialize_with = "de_len"', "fn de_len<'d, D: serde::Deserializer<'d>>(d: D) -> Result<Option<usize>, D::Error> {\n    Ok(Option::<u64>::deserialize(d)?.map(|n| n as usize))\n}\n\n"))
m('c12-dewith', 'C12', SC, dsq('deserialize_with = "de_len"', "fn de_len<'d, D: serde::Deserializer<'d>>(d: D) -> Result<Option<usize>, D::Error> {\n    Ok(Option::<u64>::deserialize(d)?.map(|n| n as u16 as usize))\n}\n\n"))
m('c12-dezero', 'C12', SC, dsq('deserialize_with = "de_len"', "fn de_len<'d, D: serde::Deserializer<'d>>(d: D) -> Result<Option<usize>, D::Error> {\n    Ok(Option::<usize>::deserialize(d)?.filter(|&n| n != 0))\n}\n\n"))
m('c12-serzero', 'C12', SC, dsq('serialize_with = "ser_len"', "fn ser_len<S: serde::Serializer>(len: &Option<usize>, s: S) -> Result<S::Ok, S::Error> {\n    len.filter(|&n| n != 0).serialize(s)\n}\n\n"))
m('c12-name', 'C12', SC, ("pub struct StructSchemaField {\n    pub name: String,", "pub struct StructSchemaField {\n    #[serde(serialize_with = \"ser_name\")]\n    pub name: String,"), ("impl ScalarType {\n", "fn ser_name<S: serde::Serializer>(name: &String, s: S) -> Result<S::Ok, S::Error> {\n    name.trim().serialize(s)\n}\n\nimpl ScalarType {\n"))
m('c12-name2', 'C12', SC, ("pub struct StructSchemaField {\n    pub name: String,", "pub struct StructSchemaField {\n    #[serde(serialize_with = \"ser_name\")]\n    pub name: String,"), ("impl ScalarType {\n", "fn ser_name<S: serde::Serializer>(name: &String, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_str(name.get(..255).unwrap_or(name))\n}\n\nimpl ScalarType {\n"))
m('ok-name', 'ok', SC, ("pub struct StructSchemaField {\n    pub name: String,", "pub struct StructSchemaField {\n    #[serde(serialize_with = \"ser_name\")]\n    pub name: String,"), ("impl ScalarType {\n", "fn ser_name<S: serde::Serializer>(name: &String, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_str(&name[..])\n}\n\nimpl ScalarType {\n"))
HS = "#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]\npub enum ScalarType"
def hand(a):
    ks = ['U8','U16','U32','U64','U128','I8','I16','I32','I64','I128','F32','F64','Char','Bool']
    return (HS, "impl Serialize for ScalarType {\n    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {\n        let (i, name) = match *self {\n" + ''.join("            ScalarType::%s => (%d, \"%s\"),\n" % (k, ks.index(a.get(k, k)), a.get(k, k)) for k in ks) + "        };\n        s.serialize_unit_variant(\"ScalarType\", i, name)\n    }\n}\n\n" + HS.replace('Serialize, ', ''))
m('ok-hand', 'ok', SC, hand({}))
m('c12-hand', 'C12', SC, hand({'Char': 'U32'}))
m('c12-hand2', 'C12', SC, hand({'F32': 'F64', 'F64': 'F32'}))
IND = '            for _ in 0..dbg_log.indent {\n                let _ = write!(dbg_log.write, "  ")\n                    .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));\n            }\n            let _ = write!(dbg_log.write, "<")'
m('c24-pad', 'C24', C, ('macro_rules! dbg_log_push {\n    ($self:ident, $($t:tt)*)=>{\n        if let Some(ref mut dbg_log) = $self.dbg_log {\n' + IND, 'macro_rules! dbg_log_push {\n    ($self:ident, $($t:tt)*)=>{\n        if let Some(ref mut dbg_log) = $self.dbg_log {\n            pad(&mut *dbg_log.write, dbg_log.indent);\n' + IND[IND.index('            let _ = write!(dbg_log.write, "<")'):]), ("struct DbgLog<'a> {", "fn pad(w: &mut dyn Write, n: usize) {\n    if n > 0 {\n        if let Err(e) = write!(w, \"  \") {\n            eprintln!(\"IO error in coder dbg log: {}\", e);\n        }\n        pad(w, n - 1);\n    }\n}\n\nstruct DbgLog<'a> {"))
# --- more refactorings, as someone would make them who has not seen the checks
VL = 'binschema/src/var_len.rs'
REVNEXT = "self.stack.iter().rev().next()"
m('ok2-last', 'ok', C, (REVNEXT, "self.stack.last()"), ("$self.stack.iter_mut().rev().next()", "$self.stack.last_mut()"), ("        let i = self.stack.len() - 1;\n        &mut self.stack[i]\n", "        self.stack.last_mut().unwrap()\n"))
m('ok2-badusage', 'ok', C, (open('/repo/binschema/src/coder/coder.rs').read().split("                None => match &$top.api_state {")[1].split("            }\n        }\n    }};\n}\n")[0] and "                None => match &$top.api_state {" + open('/repo/binschema/src/coder/coder.rs').read().split("                None => match &$top.api_state {")[1].split("            }\n        }\n    }};\n}\n")[0], "                None => return Err($self.bad_usage(&$got)),\n"), ("    /// Unwrap top stack frame.\n", """    /// What is wrong with coding that here.
    fn bad_usage(&mut self, got: &dyn std::fmt::Display) -> crate::error::Error {
        let frame = match self.stack.last() {
            Some(frame) => frame.clone(),
            None => unreachable!(),
        };
        match frame.api_state {
            ApiState::AutoFinish => unreachable!("{:#?}", self.stack),
            ApiState::OptionUninitSomeness | ApiState::SeqUninitLen => unreachable!(),
            ApiState::Need => {
                if let &Schema::Recurse(_) = frame.schema {
                    self.broken = true;
                    return error!(IllegalSchema, Some(self), "recurse at base of schema");
                }
                error!(SchemaNonConformance, Some(self), "\\nneed: {:#?}\\ngot: {:#?}", frame.schema, format_args!("{}", got))
            }
            ApiState::Seq { .. } => error!(ApiUsage, Some(self), "need seq elem/finish, got {}", got),
            ApiState::Tuple { .. } => error!(ApiUsage, Some(self), "need tuple elem/finish, got {}", got),
            ApiState::Struct { .. } => error!(ApiUsage, Some(self), "need struct field/finish, got {}", got),
            ApiState::Enum { variant_ord: None } => error!(ApiUsage, Some(self), "need enum variant ord, got {}", got),
            ApiState::Enum { variant_ord: Some(_) } => error!(ApiUsage, Some(self), "need enum variant name, got {}", got),
        }
    }

    /// Unwrap top stack frame.
"""))
RES = open('/repo/binschema/src/coder/coder.rs').read().split("            let mut target = parent;\n")[1].split("            schema = self.stack[target].schema;")[0]
m('ok2-resolve', 'ok', C, ("            let mut target = parent;\n" + RES, """            let target = match self.ancestor(n) {
                Some(target) => target,
                None => {
                    let e = error!(IllegalSchema, Some(self), "recurse past base of stack");
                    self.broken = true;
                    return Err(e);
                }
            };
"""), ("    /// Push a stack frame for needing the schema.", """    /// The stack index of what contains the top of the stack, `n` levels up.
    fn ancestor(&self, n: usize) -> Option<usize> {
        let base = self.stack.len().checked_sub(1)?;
        (1..n).try_fold(base, |i, _| self.stack[i].parent)
    }

    /// Push a stack frame for needing the schema."""))
m('ok2-frame-need', 'ok', C, ("        self.stack.push(StackFrame {\n            schema,\n            parent,\n            api_state: ApiState::Need,\n        });\n", "        self.stack.push(StackFrame::need(schema, parent));\n"), ("        stack.push(StackFrame {\n            schema,\n            parent: None,\n            api_state: ApiState::Need,\n        });\n", "        stack.push(StackFrame::need(schema, None));\n"), ("#[derive(Debug, Clone)]\nenum ApiState {", "impl<'a> StackFrame<'a> {\n    fn need(schema: &'a Schema, parent: Option<usize>) -> Self {\n        StackFrame { schema, parent, api_state: ApiState::Need }\n    }\n}\n\n#[derive(Debug, Clone)]\nenum ApiState {"))
m('ok2-enter', 'ok', C, ("        self.top().api_state =\n            ApiState::Struct {\n                next: 0,\n            };\n", "        self.enter(ApiState::Struct { next: 0 });\n"), ("        self.top().api_state =\n            ApiState::Tuple {\n                next: 0,\n            };\n", "        self.enter(ApiState::Tuple { next: 0 });\n"), ("        self.top().api_state = ApiState::SeqUninitLen;\n", "        self.enter(ApiState::SeqUninitLen);\n"), ("        self.top().api_state = ApiState::AutoFinish;\n", "        self.enter(ApiState::AutoFinish);\n"), ("    /// Unwrap top stack frame.\n", "    fn enter(&mut self, state: ApiState) -> ApiState {\n        std::mem::replace(&mut self.top().api_state, state)\n    }\n\n    /// Unwrap top stack frame.\n"))
m('ok2-finerr', 'ok', C, ("        if self.is_finished() {\n            Ok(())\n        } else {\n            Err(error!(\n                ApiUsage,\n                Some(self),\n                \"didn't finish coding, broken = {}\",\n                self.broken,\n            ))\n        }\n", "        ensure!(\n            self.is_finished(),\n            ApiUsage,\n            Some(self),\n            \"didn't finish coding, broken = {}\",\n            self.broken,\n        );\n        Ok(())\n"), ("        self.stack.is_empty() && !self.broken\n", "        if self.broken {\n            return false;\n        }\n        self.stack.is_empty()\n"))
m('ok2-letelse', 'ok', C, ("        let field =\n            match_or_unreachable!(\n                schema,\n                &Schema::Struct(ref fields) => fields\n            )\n            .get(*next);\n        let field =\n            match field {\n                Some(field) => field,\n                None => bail!(\n                    SchemaNonConformance,\n                    Some(self),\n                    \"begin struct field at idx {}, but that is the struct's len\",\n                    *next,\n                ),\n            };\n", "        let Schema::Struct(fields) = schema else { unreachable!() };\n        let at = *next;\n        if at >= fields.len() {\n            bail!(\n                SchemaNonConformance,\n                Some(self),\n                \"begin struct field at idx {}, but that is the struct's len\",\n                at,\n            );\n        }\n        let field = &fields[at];\n"))
m('ok2-next-after', 'ok', C, ("        *next += 1;\n        dbg_log!(self, \"begin struct field {:?}\", name);\n        self.push_need(&field.inner)?;\n        Ok(())\n", "        *next += 1;\n        let inner = &field.inner;\n        dbg_log!(self, \"begin struct field {:?}\", name);\n        self.push_need(inner)\n"), ("        *next += 1;\n        self.push_need(inner_schema)?;\n        Ok(())\n", "        *next = *next + 1;\n        self.push_need(inner_schema)\n"))
m('ok2-variant', 'ok', C, ("        let need_variant_name = &variants[variant_ord].name;\n", "        let variant = &variants[variant_ord];\n        let need_variant_name = variant.name.as_str();\n"), ("        self.push_need(&variants[variant_ord].inner)?;\n        Ok(())\n", "        self.push_need(&variant.inner)\n"))
m('ok2-popwhile', 'ok', C, (POP, "        loop {\n            self.stack.pop().unwrap();\n            match self.stack.last() {\n                Some(frame) if matches!(frame.api_state, ApiState::AutoFinish) => {\n                    dbg_log_pop!(self, \"auto finish\");\n                }\n                _ => break,\n            }\n        }\n"))
m('ok2-log-fn', 'ok', C, ("            for _ in 0..dbg_log.indent {\n                let _ = write!(dbg_log.write, \"  \")\n                    .map_err(|e| eprintln!(\"IO error in coder dbg log: {}\", e));\n            }\n", "            dbg_log.pad();\n"), ("struct DbgLog<'a> {", "impl<'a> DbgLog<'a> {\n    fn pad(&mut self) {\n        for _ in 0..self.indent {\n            if let Err(e) = self.write.write_all(b\"  \") {\n                eprintln!(\"IO error in coder dbg log: {}\", e);\n            }\n        }\n    }\n}\n\nstruct DbgLog<'a> {"))
m('ok2-debug', 'ok', C, ("        f.write_fmt(format_args!(\"CoderState {{\\n\"))?;\n        f.write_fmt(format_args!(\"    broken: {},\\n\", self.broken))?;\n        f.write_fmt(format_args!(\"    stack:\\n\"))?;\n", "        writeln!(f, \"CoderState {{\")?;\n        writeln!(f, \"    broken: {},\", self.broken)?;\n        writeln!(f, \"    stack:\")?;\n"), ("            for _ in 0..i.len() + 2 {\n                f.write_str(\" \")?;\n            }\n", "            f.write_str(&\" \".repeat(i.len() + 2))?;\n"), ("        f.write_fmt(format_args!(\"}}\"))?;\n        Ok(())\n", "        f.write_str(\"}\")\n"))
m('ok2-need-last', 'ok', C, (open('/repo/binschema/src/coder/coder.rs').read().split("    pub(crate) fn need(&self) -> Result<&'a Schema> {\n")[1].split("    /// Mark the coder")[0], """        if let Some(frame) = self.stack.last() {
            if let ApiState::Need = frame.api_state {
                return match frame.schema {
                    &Schema::Recurse(_) => Err(error!(
                        IllegalSchema, Some(self), "recurse at base of schema"
                    )),
                    schema => Ok(schema),
                };
            }
        }
        Err(error!(
            ApiUsage, Some(self), ".need() call while not in need state"
        ))
    }

"""))
m('ok2-enc-write', 'ok', E, ("        self.write\n            .write_all(b)\n            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n", "        if let Err(e) = self.write.write_all(b) {\n            self.state.mark_broken();\n            return Err(e.into());\n        }\n        Ok(())\n"))
m('ok2-enc-len', 'ok', E, ("            write_var_len_uint(&mut self.write, n as u128)\n                .do_if_err(|| self.state.mark_broken())?;\n            Ok(())\n", "            self.write_uint(n as u128)\n"), ("        write_var_len_uint(&mut self.write, s.len() as u128)\n            .do_if_err(|| self.state.mark_broken())?;\n", "        self.write_uint(s.len() as u128)?;\n"), ("        write_var_len_uint(&mut self.write, len as u128)\n            .do_if_err(|| self.state.mark_broken())?;\n        Ok(())\n", "        self.write_uint(len as u128)\n"), ("    encode_le_bytes!(\n", "    fn write_uint(&mut self, n: u128) -> Result<()> {\n        let result = write_var_len_uint(self.write, n);\n        if result.is_err() {\n            self.state.mark_broken();\n        }\n        result\n    }\n\n    encode_le_bytes!(\n"))
m('ok2-enc-str-bytes', 'ok', E, ("        self.state.code_str()?;\n        write_var_len_uint(&mut self.write, s.len() as u128)\n            .do_if_err(|| self.state.mark_broken())?;\n        self.write(s.as_bytes())?;\n        Ok(())\n", "        self.state.code_str()?;\n        self.write_blob(s.as_bytes())\n"), ("        self.state.code_bytes()?;\n        write_var_len_uint(&mut self.write, s.len() as u128)\n            .do_if_err(|| self.state.mark_broken())?;\n        self.write(s)?;\n        Ok(())\n", "        self.state.code_bytes()?;\n        self.write_blob(s)\n"), ("    encode_le_bytes!(\n", "    fn write_blob(&mut self, blob: &[u8]) -> Result<()> {\n        write_var_len_uint(&mut self.write, blob.len() as u128)\n            .do_if_err(|| self.state.mark_broken())?;\n        self.write(blob)\n    }\n\n    encode_le_bytes!(\n"))
m('ok2-enc-bool', 'ok', E, ("        self.write(&[b as u8])?;\n        Ok(())\n", "        let byte = if b { 1 } else { 0 };\n        self.write(std::slice::from_ref(&byte))\n"), ("        self.write(&[0])?;\n        Ok(())\n", "        self.write(&[false as u8])\n"))
m('ok2-enc-enum', 'ok', E, ("        self.state\n            .begin_enum_variant_ord(variant_ord)\n            .do_if_err(|| self.state.cancel_enum())?;\n        self.state\n            .begin_enum_variant_name(variant_name)\n            .do_if_err(|| self.state.cancel_enum())?;\n", "        if let Err(e) = self.state\n            .begin_enum_variant_ord(variant_ord)\n            .and_then(|()| self.state.begin_enum_variant_name(variant_name))\n        {\n            self.state.cancel_enum();\n            return Err(e);\n        }\n"))
m('ok2-dec-bool', 'ok', D, ("        let [n] = self.read([0])?;\n        match n {\n            0 => Ok(false),\n            1 => Ok(true),\n            _ => Err(error!(\n                MalformedData,\n                Some(self.coder_state()),\n                \"{} is not a valid bool\",\n                n,\n            )).do_if_err(|| self.state.mark_broken()),\n        }\n", "        self.read_flag(\"bool\")\n"), ("        let [n] = self.read([0])?;\n        let is_some =\n            match n {\n                0 => false,\n                1 => true,\n                _ => {\n                    self.state.mark_broken();\n                    bail!(\n                        MalformedData,\n                        Some(self.coder_state()),\n                        \"{} is not a valid option someness\",\n                        n,\n                    );\n                }\n            };\n", "        let is_some = self.read_flag(\"option someness\")?;\n"), ("    decode_le_bytes!(\n", "    fn read_flag(&mut self, what: &str) -> Result<bool> {\n        let [n] = self.read([0])?;\n        if n > 1 {\n            self.state.mark_broken();\n            bail!(MalformedData, Some(self.coder_state()), \"{} is not a valid {}\", n, what);\n        }\n        Ok(n == 1)\n    }\n\n    decode_le_bytes!(\n"))
m('ok2-dec-buf', 'ok', D, ("        (&mut *self.read)\n            .take(len as u64)\n            .read_to_end(buf)\n            .and_then(|n| if n == len {\n                Ok(())\n            } else {\n                Err(ErrorKind::UnexpectedEof.into())\n            })\n            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n", "        let result = match Read::by_ref(self.read).take(len as u64).read_to_end(buf) {\n            Ok(n) if n < len => Err(std::io::Error::from(ErrorKind::UnexpectedEof)),\n            Ok(_) => Ok(()),\n            Err(e) => Err(e),\n        };\n        if result.is_err() {\n            self.state.mark_broken();\n        }\n        Ok(result?)\n"))
m('ok2-dec-char', 'ok', D, ("        char::from_u32(n)\n            .ok_or_else(|| error!(\n                MalformedData,\n                Some(self.coder_state()),\n                \"{} is not a valid char\",\n                n\n            ))\n            .do_if_err(|| self.state.mark_broken())\n", "        if let Some(c) = char::from_u32(n) {\n            Ok(c)\n        } else {\n            self.state.mark_broken();\n            bail!(MalformedData, Some(self.coder_state()), \"{} is not a valid char\", n)\n        }\n"))
m('ok2-dec-char2', 'ok', D, ("        char::from_u32(n)\n            .ok_or_else(|| error!(\n                MalformedData,\n                Some(self.coder_state()),\n                \"{} is not a valid char\",\n                n\n            ))\n", "        char::try_from(n)\n            .map_err(|_| error!(\n                MalformedData,\n                Some(self.coder_state()),\n                \"{} is not a valid char\",\n                n\n            ))\n"))
m('ok2-dec-num', 'ok', D, ("            read_var_len_uint(&mut self.read)\n                .map_err(Error::from)\n                .and_then(|n| $t::try_from(n)\n                    .map_err(|_| error!(\n                        MalformedData,\n                        Some(self.coder_state()),\n                        concat!(\n                            \"{} out of range for a \",\n                            stringify!($t),\n                        ),\n                        n,\n                    )))\n                .do_if_err(|| self.state.mark_broken())\n", "            let n = match read_var_len_uint(self.read) {\n                Ok(n) => n,\n                Err(e) => {\n                    self.state.mark_broken();\n                    return Err(e);\n                }\n            };\n            if n > $t::MAX as u128 {\n                self.state.mark_broken();\n                bail!(\n                    MalformedData,\n                    Some(self.coder_state()),\n                    \"{} out of range for a {}\",\n                    n,\n                    stringify!($t),\n                );\n            }\n            Ok(n as $t)\n"))
m('ok2-dec-str', 'ok', D, ("        match String::from_utf8(bbuf) {\n            Ok(s) => {\n                *buf = s;\n                Ok(())\n            }\n            Err(e) => {\n                self.state.mark_broken();\n                let mut bbuf = e.into_bytes();\n                bbuf.clear();\n                *buf = String::from_utf8(bbuf).unwrap();\n                Err(error!(\n                    MalformedData, Some(self.coder_state()), \"non UTF8 str bytes\",\n                ))\n            }\n        }\n", "        *buf = match String::from_utf8(bbuf) {\n            Ok(s) => s,\n            Err(e) => {\n                self.state.mark_broken();\n                let mut bbuf = e.into_bytes();\n                bbuf.clear();\n                *buf = String::from_utf8(bbuf).unwrap();\n                bail!(MalformedData, Some(self.coder_state()), \"non UTF8 str bytes\");\n            }\n        };\n        Ok(())\n"))
m('ok2-dec-str2', 'ok', D, ("        if let Err(e) = self.read_to_buf(&mut bbuf, len) {\n            bbuf.clear();\n            *buf = String::from_utf8(bbuf).unwrap();\n            return Err(e);\n        }\n\n        // try to convert to utf8\n        // on error, make sure to return the buffer\n        match String::from_utf8(bbuf) {\n            Ok(s) => {\n                *buf = s;\n                Ok(())\n            }\n            Err(e) => {\n                self.state.mark_broken();\n                let mut bbuf = e.into_bytes();\n                bbuf.clear();\n                *buf = String::from_utf8(bbuf).unwrap();\n                Err(error!(\n                    MalformedData, Some(self.coder_state()), \"non UTF8 str bytes\",\n                ))\n            }\n        }\n", "        let mut result = self.read_to_buf(&mut bbuf, len);\n        if result.is_ok() && std::str::from_utf8(&bbuf).is_err() {\n            self.state.mark_broken();\n            result = Err(error!(\n                MalformedData, Some(self.coder_state()), \"non UTF8 str bytes\",\n            ));\n        }\n        if result.is_err() {\n            bbuf.clear();\n        }\n        *buf = String::from_utf8(bbuf).unwrap();\n        result\n"))
m('ok2-vl-ord', 'ok', VL, ("    let mut mask = !0;\n    let mut bytes = 0;\n\n    while (mask & max_ord) != 0 {\n        mask <<= 8;\n        bytes += 1;\n    }\n\n    bytes\n", "    let mut rest = max_ord;\n    let mut bytes = 0;\n    while rest > 0 {\n        rest >>= 8;\n        bytes += 1;\n    }\n    bytes\n"))
m('ok2-vl-ord2', 'ok', VL, ("    let mut mask = !0;\n    let mut bytes = 0;\n\n    while (mask & max_ord) != 0 {\n        mask <<= 8;\n        bytes += 1;\n    }\n\n    bytes\n", "    (usize::BITS - max_ord.leading_zeros()).div_ceil(8) as usize\n"))
m('ok2-vl-ord3', 'ok', VL, ("    let mut mask = !0;\n    let mut bytes = 0;\n\n    while (mask & max_ord) != 0 {\n        mask <<= 8;\n        bytes += 1;\n    }\n\n    bytes\n", "    match max_ord {\n        0 => 0,\n        1..=0xff => 1,\n        0x100..=0xffff => 2,\n        0x1_0000..=0xff_ffff => 3,\n        0x100_0000..=0xffff_ffff => 4,\n        0x1_0000_0000..=0xff_ffff_ffff => 5,\n        0x100_0000_0000..=0xffff_ffff_ffff => 6,\n        0x1_0000_0000_0000..=0xff_ffff_ffff_ffff => 7,\n        _ => 8,\n    }\n"))
m('ok2-vl-loop', 'ok', VL, ("    let mut more = true;\n    while more {\n        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;\n        n >>= 7;\n        more = n != 0;\n        let curr_byte = ((more as u8) << 7) | curr_7_bits;\n        write.write_all(&[curr_byte])?;\n    }\n    Ok(())\n", "    while n > LO_7_BITS as u128 {\n        write.write_all(&[n as u8 | MORE_BIT])?;\n        n >>= 7;\n    }\n    write.write_all(&[n as u8])?;\n    Ok(())\n"))
m('ok2-vl-byte', 'ok', VL, ("        let mut buf = [0];\n        read.read_exact(&mut buf)?;\n        let [curr_byte] = buf;\n", "        let curr_byte = read_byte(read)?;\n"), ("    let mut buf = [0];\n    read.read_exact(&mut buf)?;\n    let [curr_byte] = buf;\n", "    let curr_byte = read_byte(read)?;\n"), ("const MORE_BIT: u8  = 0b10000000;", "fn read_byte<R: Read>(read: &mut R) -> Result<u8> {\n    let mut buf = [0];\n    read.read_exact(&mut buf)?;\n    Ok(buf[0])\n}\n\nconst MORE_BIT: u8  = 0b10000000;"))
m('ok2-vl-sint', 'ok', VL, ("    let curr_7_bits =\n        ((neg as u8) << 6)\n        | (n & (LO_6_BITS as i128)) as u8;\n    n >>= 6;\n    let mut more = n != 0;\n    let curr_byte = ((more as u8) << 7) | curr_7_bits;\n    write.write_all(&[curr_byte])?;\n\n    while more {\n        let curr_7_bits = (n & (LO_7_BITS as i128)) as u8;\n        n >>= 7;\n        more = n != 0;\n        let curr_byte = ((more as u8) << 7) | curr_7_bits;\n        write.write_all(&[curr_byte])?;\n    }\n\n    Ok(())\n", "    let mut curr_byte = (n & (LO_6_BITS as i128)) as u8;\n    if neg {\n        curr_byte |= ENCODED_SIGN_BIT;\n    }\n    n >>= 6;\n    if n == 0 {\n        write.write_all(&[curr_byte])?;\n        return Ok(());\n    }\n    write.write_all(&[curr_byte | MORE_BIT])?;\n    write_var_len_uint(write, n as u128)\n"))
m('ok2-vl-write', 'ok', VL, ("    let all_bytes = u64::to_le_bytes(ord as _);\n    let byte_len = ord_byte_len(num_variants - 1);\n    let used_bytes = &all_bytes[..byte_len];\n    write.write_all(used_bytes)?;\n    Ok(())\n", "    let byte_len = ord_byte_len(num_variants - 1);\n    let (used_bytes, _) = (ord as u64).to_le_bytes().split_at(byte_len).clone();\n    Ok(write.write_all(used_bytes)?)\n") if False else ("    let used_bytes = &all_bytes[..byte_len];\n    write.write_all(used_bytes)?;\n    Ok(())\n", "    let (used_bytes, _) = all_bytes.split_at(byte_len);\n    Ok(write.write_all(used_bytes)?)\n"))
m('ok2-vl-max', 'ok', VL, ("            bits <= u128::MAX >> shift,\n", "            shift < 126 || bits < 4,\n"))
SE_ = 'binschema/src/serde/ser.rs'; DE_ = 'binschema/src/serde/de.rs'
FT = "    pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {"
FN = open('/repo/binschema/src/known_schema.rs').read().split("    fn find_node<T: KnownSchema>(&self) -> Option<(usize, &Node<'a>)> {\n")[1].split("    pub fn parent_recurse")[0]
m('ok3-ks-loop', 'ok', KS, (FN, """        let target = T::schema as fn(RecurseStack) -> Schema as usize;
        let mut level = 0;
        let mut at = self.0.as_ref();
        while let Some(node) = at {
            match node.val {
                Some(val) if val as usize == target => return Some((level, node)),
                _ => (),
            }
            at = node.next.as_ref();
            level += node.layers;
        }
        None
    }

"""))
m('ok3-ks-push', 'ok', KS, ("        RecurseStack(Some(Node {\n            val: Some(T::schema),\n            dbg: type_name::<T>(),\n            layers: 1,\n            next: &self.0,\n        }))\n", "        self.push(Some(T::schema), type_name::<T>(), 1)\n"), ("        RecurseStack(Some(Node {\n            val: Some(T::schema),\n            dbg: type_name::<T>(),\n            layers: 0,\n            next: &self.0,\n        }))\n", "        self.push(Some(T::schema), type_name::<T>(), 0)\n"), ("        RecurseStack(Some(Node {\n            val: None,\n            dbg: \"\",\n            layers: 1,\n            next: &self.0,\n        }))\n", "        self.push(None, \"\", 1)\n"), ("    pub fn new() -> Self {\n        RecurseStack(None)\n    }\n", "    pub fn new() -> Self {\n        RecurseStack(None)\n    }\n\n    fn push<'b>(\n        &'b self,\n        val: Option<fn(RecurseStack) -> Schema>,\n        dbg: &'static str,\n        layers: usize,\n    ) -> RecurseStack<'b> {\n        RecurseStack(Some(Node { val, dbg, layers, next: &self.0 }))\n    }\n"))
m('ok3-ks-recurse', 'ok', KS, ("        self.find_node::<T>()\n            .map(|(n, node)| Schema::Recurse(n + node.layers))\n", "        let (below, node) = self.find_node::<T>()?;\n        let level = below + node.layers;\n        Some(schema!(recurse(level)))\n"))
m('ok3-ks-find', 'ok', KS, ("        self.find_node::<T>().map(|(level, _)| level)\n", "        match self.find_node::<T>() {\n            Some((level, _)) => Some(level),\n            None => None,\n        }\n"))
m('ok3-ks-direct', 'ok', KS, ("                schema!(seq(varlen)(%T::schema(stack)))\n            }\n        }\n    )*};", "                let inner = T::schema(stack);\n                Schema::Seq(SeqSchema { len: None, inner: Box::new(inner) })\n            }\n        }\n    )*};"), ("        schema!(option(%T::schema(stack)))\n", "        Schema::Option(Box::new(T::schema(stack)))\n"), ("        schema!(seq(LEN)(%T::schema(stack)))\n", "        Schema::Seq(SeqSchema {\n            len: Some(LEN),\n            inner: Box::new(T::schema(stack)),\n        })\n"))
m('ok3-ks-range', 'ok', KS, ("impl<T: KnownSchema> KnownSchema for Range<T> {\n    fn schema(parent_stack: RecurseStack) -> Schema {\n        let stack = parent_stack.with_type_layer::<Self>();\n        schema!(struct {\n            (start: %T::schema(stack)),\n            (end: %T::schema(stack)),\n        })\n    }\n}\n", "impl<T: KnownSchema> KnownSchema for Range<T> {\n    fn schema(parent_stack: RecurseStack) -> Schema {\n        start_end::<Self, T>(parent_stack)\n    }\n}\n\nfn start_end<R: KnownSchema, T: KnownSchema>(parent_stack: RecurseStack) -> Schema {\n    let stack = parent_stack.with_type_layer::<R>();\n    let bound = T::schema(stack);\n    schema!(struct {\n        (start: %bound.clone()),\n        (end: %bound),\n    })\n}\n"))
m('ok3-ks-map', 'ok', KS, ("                let stack = parent_stack.with_type_layer::<Self>();\n                let stack = stack.with_none_layer();\n                schema!(seq(varlen)(tuple {\n                    (%K::schema(stack)),\n                    (%V::schema(stack)),\n                }))\n", "                let outer = parent_stack.with_type_layer::<Self>();\n                let pair = outer.with_none_layer();\n                let key = K::schema(pair);\n                let value = V::schema(pair);\n                schema!(seq(varlen)(%Schema::Tuple(vec![key, value])))\n"))
m('ok3-ser-len', 'ok', SE_, ("                    let len = got_len\n                        .ok_or_else(|| error!(\n                            Other,\n                            Some(self.coder_state()),\n                            \"serialize var len seq without specifying len\",\n                        ))?;\n", "                    let Some(len) = got_len else {\n                        bail!(\n                            Other,\n                            Some(self.coder_state()),\n                            \"serialize var len seq without specifying len\",\n                        );\n                    };\n"))
m('ok3-ser-fixed', 'ok', SE_, ("                    self.begin_fixed_len_seq(got_len.unwrap_or(len))?;\n", "                    let len = match got_len {\n                        Some(got_len) => got_len,\n                        None => len,\n                    };\n                    self.begin_fixed_len_seq(len)?;\n"))
m('ok3-ser-variant', 'ok', SE_, ("        self.begin_enum(variant_index as usize, variant)?;\n        self.encode_unit()\n", "        self.serialize_newtype_variant(_name, variant_index, variant, &())\n"), ("        self.begin_enum(variant_index as usize, variant)?;\n        self.begin_struct()?;\n        Ok(self)\n", "        self.begin_enum(variant_index as usize, variant)?;\n        self.serialize_struct(variant, _len)\n"))
m('ok3-ser-unit', 'ok', SE_, ("    fn serialize_unit_struct(self, _name: &'static str) -> Result<()> {\n        self.encode_unit()\n", "    fn serialize_unit_struct(self, _name: &'static str) -> Result<()> {\n        self.serialize_unit()\n"), ("        self.begin_some()?;\n        value.serialize(self)\n", "        self.begin_some().and_then(|()| value.serialize(self))\n"))
m('ok3-ser-elem', 'ok', SE_, ("        match self.seq_like {\n            SeqLike::Seq => self.encoder.begin_seq_elem()?,\n            SeqLike::Tuple => self.encoder.begin_tuple_elem()?,\n            SeqLike::Unit => bail!(\n                Other,\n                Some(self.encoder.coder_state()),\n                \"serialize element to unit as seq-like\",\n            ),\n        }\n        value.serialize(&mut *self.encoder)\n", "        let SeqLikeSerializer { encoder, seq_like } = self;\n        if *seq_like == SeqLike::Seq {\n            encoder.begin_seq_elem()?;\n        } else if *seq_like == SeqLike::Tuple {\n            encoder.begin_tuple_elem()?;\n        } else {\n            bail!(\n                Other,\n                Some(encoder.coder_state()),\n                \"serialize element to unit as seq-like\",\n            );\n        }\n        value.serialize(&mut **encoder)\n"))
m('ok3-de-len', 'ok', DE_, ("        if let Some(got_len) = got_len {\n            ensure!(\n                len == got_len,\n                SchemaNonConformance,\n                Some(self.coder_state()),\n                \"need seq-like len {}, got seq-like len {}\",\n                len,\n                got_len,\n            );\n        }\n", "        let got_len = got_len.unwrap_or(len);\n        ensure!(\n            len == got_len,\n            SchemaNonConformance,\n            Some(self.coder_state()),\n            \"need seq-like len {}, got seq-like len {}\",\n            len,\n            got_len,\n        );\n"))
m('ok3-de-finish', 'ok', DE_, ("        if len == 0 {\n            match seq_like {\n                SeqLike::Seq => self.finish_seq()?,\n                SeqLike::Tuple => self.finish_tuple()?,\n                SeqLike::Unit => (),\n            }\n        }\n", "        if len == 0 {\n            seq_like.finish(self)?;\n        }\n"), ("                match self.seq_like {\n                    SeqLike::Seq => self.decoder.finish_seq()?,\n                    SeqLike::Tuple => self.decoder.finish_tuple()?,\n                    SeqLike::Unit => unreachable!(),\n                }\n", "                self.seq_like.finish(self.decoder)?;\n"), ("struct SeqDecoder<'a, 'b, 'c, R> {", "impl SeqLike {\n    fn finish<R: Read>(self, decoder: &mut Decoder<'_, '_, R>) -> Result<()> {\n        match self {\n            SeqLike::Seq => decoder.finish_seq(),\n            SeqLike::Tuple => decoder.finish_tuple(),\n            SeqLike::Unit => Ok(()),\n        }\n    }\n}\n\nstruct SeqDecoder<'a, 'b, 'c, R> {"))
m('ok3-de-early', 'ok', DE_, ("        if self.remaining > 0 {\n            self.remaining -= 1;\n\n            self.decoder.begin_seq_elem()?;\n            self.decoder.begin_tuple()?;\n            self.decoder.begin_tuple_elem()?;\n            Ok(Some(seed.deserialize(&mut *self.decoder)?))\n        } else {\n            Ok(None)\n        }\n", "        self.remaining = match self.remaining.checked_sub(1) {\n            Some(n) => n,\n            None => return Ok(None),\n        };\n        self.decoder.begin_seq_elem()?;\n        self.decoder.begin_tuple()?;\n        self.decoder.begin_tuple_elem()?;\n        seed.deserialize(&mut *self.decoder).map(Some)\n"))
m('ok3-de-split', 'ok', DE_, ("        if let Some(next) = self.remaining.get(0) {\n            self.remaining = &self.remaining[1..];\n\n            self.decoder.begin_struct_field(next.as_name())?;\n            Ok(Some(seed.deserialize(\n                StrDeserializer::<Error>::new(next.as_name())\n            )?))\n        } else {\n            Ok(None)\n        }\n", "        let Some((next, rest)) = self.remaining.split_first() else {\n            return Ok(None);\n        };\n        self.remaining = rest;\n        let name = next.as_name();\n        self.decoder.begin_struct_field(name)?;\n        let key = seed.deserialize(StrDeserializer::<Error>::new(name))?;\n        Ok(Some(key))\n"))
m('ok3-de-iter', 'ok', DE_, ("    remaining: &'n [N],\n", "    remaining: std::slice::Iter<'n, N>,\n"), ("            remaining: fields,\n", "            remaining: fields.iter(),\n"), ("        if let Some(next) = self.remaining.get(0) {\n            self.remaining = &self.remaining[1..];\n\n", "        if let Some(next) = self.remaining.next() {\n"), ("        if self.remaining.is_empty() {\n            self.decoder.finish_struct", "        if self.remaining.len() == 0 {\n            self.decoder.finish_struct"))
m('ok3-de-enum', 'ok', DE_, ("        let ord = self.begin_enum()?;\n        let name = variants\n            .get(ord)\n            .ok_or_else(|| error!(\n                SchemaNonConformance,\n                Some(self.coder_state()),\n                \"decoded ord {}, but only {} variants provided to deserialize_enum\",\n                ord,\n                variants.len(),\n            ))?;\n        self.begin_enum_variant(name.as_name())?;\n", "        let ord = self.begin_enum()?;\n        if ord >= variants.len() {\n            bail!(\n                SchemaNonConformance,\n                Some(self.coder_state()),\n                \"decoded ord {}, but only {} variants provided to deserialize_enum\",\n                ord,\n                variants.len(),\n            );\n        }\n        self.begin_enum_variant(variants[ord].as_name())?;\n"))
m('ok3-de-option', 'ok', DE_, ("        match self.begin_option()? {\n            false => v.visit_none(),\n            true => v.visit_some(self)\n        }\n", "        let some = self.begin_option()?;\n        if some {\n            return v.visit_some(self);\n        }\n        v.visit_none()\n"), ("            &Schema::Seq(_) => self.deserialize_seq_like(v, None),\n            &Schema::Tuple(_) => self.deserialize_seq_like(v, None),\n", "            &Schema::Seq(_) | &Schema::Tuple(_) => self.deserialize_seq(v),\n"))
m('ok3-de-any', 'ok', DE_, ("            &Schema::Struct(\n                ref fields,\n            ) => self.inner_deserialize_struct(fields, v),\n            &Schema::Enum(\n                ref variants,\n            ) => self.inner_deserialize_enum(variants, v),\n", "            Schema::Struct(fields) => self.inner_deserialize_struct(&fields[..], v),\n            Schema::Enum(variants) => self.inner_deserialize_enum(variants.as_slice(), v),\n"))
m('ok3-de-size', 'ok', DE_, ("struct MapDecoder<'a, 'b, 'c, R> {\n", "impl<'a, 'b, 'c, R> SeqDecoder<'a, 'b, 'c, R> {\n    fn is_done(&self) -> bool {\n        self.remaining == 0\n    }\n}\n\nstruct MapDecoder<'a, 'b, 'c, R> {\n"), ("            if self.remaining == 0 {\n                match self.seq_like {", "            if self.is_done() {\n                match self.seq_like {"))
m('ok3-va-field', 'ok', VA, ("                for schema_field in schema_fields {\n                    d.begin_struct_field(&schema_field.name)?;\n                    fields.push(StructValueField {\n                        name: schema_field.name.clone(),\n                        value: Value::decode_from(d)?,\n                    });\n                }\n", "                for StructSchemaField { name, .. } in schema_fields.iter() {\n                    d.begin_struct_field(name)?;\n                    let value = Self::decode_from(d)?;\n                    fields.push(StructValueField { name: name.to_owned(), value });\n                }\n"), ("        SeqSchema,\n", "        SeqSchema,\n        StructSchemaField,\n"))
m('ok3-va-seq', 'ok', VA, ("                let len = d.begin_var_len_seq()?;\n                let mut elems = Vec::new();\n                for _ in 0..len {\n                    d.begin_seq_elem()?;\n                    elems.push(Value::decode_from(d)?);\n                }\n                d.finish_seq()?;\n                Value::VarLenSeq(elems)\n", "                let len = d.begin_var_len_seq()?;\n                Value::VarLenSeq(decode_elems(d, len)?)\n"), ("                d.begin_fixed_len_seq(len)?;\n                let mut elems = Vec::new();\n                for _ in 0..len {\n                    d.begin_seq_elem()?;\n                    elems.push(Value::decode_from(d,)?);\n                }\n                d.finish_seq()?;\n                Value::FixedLenSeq(elems)\n", "                d.begin_fixed_len_seq(len)?;\n                Value::FixedLenSeq(decode_elems(d, len)?)\n"), ("impl Value {\n", "fn decode_elems<R: Read>(d: &mut Decoder<R>, len: usize) -> Result<Vec<Value>> {\n    let mut elems = Vec::new();\n    while elems.len() < len {\n        d.begin_seq_elem()?;\n        elems.push(Value::decode_from(d)?);\n    }\n    d.finish_seq()?;\n    Ok(elems)\n}\n\nimpl Value {\n"))
m('ok3-va-opt', 'ok', VA, ("                if d.begin_option()? {\n                    let inner = Value::decode_from(d)?;\n                    Value::Option(Some(Box::new(inner)))\n                } else {\n                    Value::Option(None)\n                }\n", "                let is_some = d.begin_option()?;\n                Value::Option(match is_some {\n                    true => Some(Box::new(Value::decode_from(d)?)),\n                    false => None,\n                })\n"), ("                let variant = &variants[variant_ord];\n                d.begin_enum_variant(&variant.name)?;\n                let inner = Value::decode_from(d)?;\n                Value::Enum(EnumValue {\n                    variant_ord,\n                    variant_name: variant.name.clone(),\n                    value: Box::new(inner),\n                })\n", "                let name = &variants[variant_ord].name;\n                d.begin_enum_variant(name)?;\n                Value::Enum(EnumValue {\n                    variant_ord,\n                    variant_name: name.clone(),\n                    value: Box::new(Value::decode_from(d)?),\n                })\n"))
m('ok3-va-enc', 'ok', VA, ("                e.begin_fixed_len_seq(elems.len())?;\n                for elem in elems {\n                    e.begin_seq_elem()?;\n                    elem.encode_to(e)?;\n                }\n                e.finish_seq()\n", "                e.begin_fixed_len_seq(elems.len())?;\n                encode_seq(elems, e)\n"), ("                e.begin_var_len_seq(elems.len())?;\n                for elem in elems {\n                    e.begin_seq_elem()?;\n                    elem.encode_to(e)?;\n                }\n                e.finish_seq()\n", "                e.begin_var_len_seq(elems.len())?;\n                encode_seq(elems, e)\n"), ("impl Value {\n", "fn encode_seq<W: Write>(elems: &[Value], e: &mut Encoder<W>) -> Result<()> {\n    for elem in elems {\n        e.begin_seq_elem()?;\n        elem.encode_to(e)?;\n    }\n    e.finish_seq()\n}\n\nimpl Value {\n"))
AL_ = 'binschema/src/coder/coder_alloc.rs'; DIE = 'binschema/src/do_if_err.rs'
m('ok4-al-md', 'ok', AL_, ("        let ptr = stack.as_mut_ptr() as *mut ();\n        let capacity = stack.capacity();\n        forget(stack);\n        CoderStateAlloc { ptr, capacity }\n", "        let mut stack = ManuallyDrop::new(stack);\n        CoderStateAlloc {\n            ptr: stack.as_mut_ptr().cast(),\n            capacity: stack.capacity(),\n        }\n"), ("            let stack = Vec::from_raw_parts(\n                self.ptr as *mut StackFrame<'a>,\n                0,\n                self.capacity,\n            );\n            forget(self);\n            stack\n", "            let this = ManuallyDrop::new(self);\n            Vec::from_raw_parts(this.ptr.cast(), 0, this.capacity)\n"), ("use std::mem::forget;", "use std::mem::ManuallyDrop;"))
m('ok4-al-raw', 'ok', AL_, ("            drop(Vec::from_raw_parts(\n                self.ptr as *mut StackFrame<'_>,\n                0,\n                self.capacity,\n            ));\n", "            let _stack: Vec<StackFrame<'_>> = self.raw();\n"), ("            let stack = Vec::from_raw_parts(\n                self.ptr as *mut StackFrame<'a>,\n                0,\n                self.capacity,\n            );\n", "            let stack = self.raw();\n"), ("    pub(super) fn into_stack", "    unsafe fn raw<'a>(&self) -> Vec<StackFrame<'a>> {\n        Vec::from_raw_parts(self.ptr as *mut StackFrame<'a>, 0, self.capacity)\n    }\n\n    pub(super) fn into_stack"))
m('ok4-al-nn', 'ok', AL_, ("    ptr: *mut (),\n", "    ptr: std::ptr::NonNull<()>,\n"), ("        let ptr = stack.as_mut_ptr() as *mut ();\n", "        let ptr = unsafe { std::ptr::NonNull::new_unchecked(stack.as_mut_ptr() as *mut ()) };\n"), ("self.ptr as *mut StackFrame<'a>", "self.ptr.as_ptr() as *mut StackFrame<'a>"), ("self.ptr as *mut StackFrame<'_>", "self.ptr.as_ptr() as *mut StackFrame<'_>"))
m('ok4-al-swap', 'ok', AL_, ("        unsafe {\n            let stack = Vec::from_raw_parts(\n                self.ptr as *mut StackFrame<'a>,\n                0,\n                self.capacity,\n            );\n            forget(self);\n            stack\n        }\n", "        let CoderStateAlloc { ptr, capacity } = self;\n        forget(self);\n        unsafe { Vec::from_raw_parts(ptr as *mut StackFrame<'a>, 0, capacity) }\n") if False else ("        unsafe {\n            let stack = Vec::from_raw_parts(\n                self.ptr as *mut StackFrame<'a>,\n                0,\n                self.capacity,\n            );\n            forget(self);\n            stack\n        }\n", "        let (ptr, capacity) = (self.ptr, self.capacity);\n        forget(self);\n        unsafe { Vec::from_raw_parts(ptr as *mut StackFrame<'a>, 0, capacity) }\n"))
m('ok4-al-clone', 'ok', AL_, ("    fn clone(&self) -> Self {\n        CoderStateAlloc::new()\n", "    fn clone(&self) -> Self {\n        Self::default()\n"), ("    pub fn new() -> Self {\n        Self::from_stack(Vec::new())\n", "    pub fn new() -> Self {\n        let stack: Vec<StackFrame<'static>> = Vec::new();\n        Self::from_stack(stack)\n"))
m('ok4-al-cap', 'ok', AL_, ("    fn clone(&self) -> Self {\n        CoderStateAlloc::new()\n", "    fn clone(&self) -> Self {\n        Self::from_stack(Vec::with_capacity(self.capacity))\n"))
m('ok4-die', 'ok', DIE, ("        if self.is_err() {\n            f();\n        }\n        self\n", "        self.map_err(|e| {\n            f();\n            e\n        })\n"))
m('ok4-die2', 'ok', DIE, ("        if self.is_err() {\n            f();\n        }\n        self\n", "        match self {\n            Ok(x) => Ok(x),\n            Err(e) => {\n                f();\n                Err(e)\n            }\n        }\n"))
m('ok4-die3', 'ok', DIE, ("        if self.is_err() {\n            f();\n        }\n        self\n", "        self.inspect_err(|_| f())\n"))
m('ok4-err-new', 'ok', ER, ("        Error {\n            kind,\n            error: error.into(),\n            coder_state: coder_state.map(|state| format!(\"{:?}\", state)),\n        }\n", "        let error = error.into();\n        let coder_state = coder_state.map(|state| {\n            use std::fmt::Write;\n            let mut s = String::new();\n            write!(s, \"{:?}\", state).unwrap();\n            s\n        });\n        Error { kind, error, coder_state }\n"))
m('ok4-err-as', 'ok', ER, ("        &*self.error\n    }\n\n    pub fn inner_mut", "        self.error.as_ref()\n    }\n\n    pub fn inner_mut"), ("        &mut *self.error\n", "        self.error.as_mut()\n"), ("        Self::new(ErrorKind::Other, error, None)\n", "        Error { kind: ErrorKind::Other, error: error.into(), coder_state: None }\n"))
m('ok4-err-kindname', 'ok', ER, ("        f.write_str(match *self {", "        f.write_str(self.name())\n    }\n}\n\nimpl ErrorKind {\n    fn name(&self) -> &'static str {\n        match *self {"), ("            ErrorKind::Other => \"unknown error\",\n        })\n", "            ErrorKind::Other => \"unknown error\",\n        }\n"))
m('ok4-dv-fields', 'ok', DV, ("            if unnamed.len() == 0 {", "            if unnamed.is_empty() {"), ("            } else if unnamed.len() == 1 {\n                // newtype (1-tuple)\n                field_schema(&unnamed[0])\n", "            } else if let (Some(field), 1) = (unnamed.first(), unnamed.len()) {\n                // newtype (1-tuple)\n                field_schema(field)\n"))
m('ok4-dv-layer', 'ok', DV, ("                    let inner = fields_schema(&variant.fields, true);\n                    quote! {\n                        #variant_name(#inner)\n                    }\n", "                    let fields = &variant.fields;\n                    let inner = fields_schema(fields, true);\n                    let tokens = quote! { #variant_name(#inner) };\n                    tokens\n"), ("                let stack = parent_stack.#layer::<Self>();\n                ::binschema::schema!(#schema)\n", "                let stack = parent_stack.#layer::<Self>();\n                let schema = ::binschema::schema!(#schema);\n                schema\n"), ("                if let Some(s) = parent_stack.parent_recurse::<Self>() {\n                    return s;\n                }\n", "                match parent_stack.parent_recurse::<Self>() {\n                    Some(s) => return s,\n                    None => (),\n                }\n"))
m('ok4-dv-attr', 'ok', DV, ("    if let Some(attr) = field.attrs\n        .iter()\n        .find(|attr| attr.path.is_ident(\"schema\"))\n    {", "    let schema_attr = field.attrs.iter().find(|attr| attr.path.is_ident(\"schema\"));\n    if let Some(attr) = schema_attr {"), ("            recurse(#n)\n", "            %::binschema::Schema::Recurse(#n)\n"))
m('ok4-dv-none', 'ok', DV, ("    let layer =\n        if is_variant {\n            quote! { let stack = stack.with_none_layer(); }\n        } else {\n            quote! {}\n        };\n", "    let layer = is_variant.then(|| quote! {\n        let parent = stack;\n        let stack = parent.with_none_layer();\n    });\n"))
m('c25-past-root', 'C25', C, ("                target = match target {\n                    Some(i) => self.stack[i].parent,\n                    None => break,\n                };\n", "                target = target.and_then(|i| self.stack[i].parent);\n"))
m('c25-wrap', 'C25', VL, ("    let mut more = true;\n    while more {\n        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;\n        n >>= 7;\n        more = n != 0;\n", "    let mut more = true;\n    let all = n;\n    let mut shift = 0u32;\n    while more {\n        n = all.wrapping_shr(shift);\n        shift += 7;\n        let curr_7_bits = (n & (LO_7_BITS as u128)) as u8;\n        more = all.wrapping_shr(shift) != 0;\n"))
m('c25-ordlen', 'C25', VL, ("    let mut mask = !0;\n    let mut bytes = 0;\n\n    while (mask & max_ord) != 0 {\n        mask <<= 8;\n        bytes += 1;\n    }\n\n    bytes\n", "    let mut bytes = 0;\n    while max_ord.checked_shr(8 * bytes).unwrap_or(max_ord) != 0 {\n        bytes += 1;\n    }\n    bytes as usize\n"))
m('c25-seqlog', 'C25', C, ("        dbg_log_push!(self, \"seq, fixed len={}\", len);\n", "        dbg_log_push!(self, \"seq, fixed len={}\", (0..len).map(|_| 1usize).sum::<usize>());\n"))
m('c25-remaining', 'C25', C, ("        *next += 1;\n        self\n            .push_need(match_or_unreachable!(\n                schema,\n                &Schema::Seq", "        let mut remaining = 0usize;\n        let mut i = *next;\n        while i < len {\n            remaining += 1;\n            i += 1;\n        }\n        debug_assert!(remaining > 0);\n        *next += 1;\n        self\n            .push_need(match_or_unreachable!(\n                schema,\n                &Schema::Seq"))
m('c25-skip', 'C25', D, ("        (&mut *self.read)\n            .take(len as u64)\n", "        let mut blocks = 0u64;\n        let mut left = len as u64;\n        while left > 4096 {\n            left -= 4096;\n            blocks += 1;\n        }\n        (&mut *self.read)\n            .take(blocks * 4096 + left)\n"))
m('c25-count', 'C25', C, ("                return Err(error!(\n                    IllegalSchema,\n                    Some(self),\n                    \"recurse past base of stack\",\n                ))\n", "x")) if False else None
m('c26-counter', 'C26', C, ("    fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {\n", "    fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {\n        static PUSHED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        if PUSHED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 1 << 40 {\n            self.stack.shrink_to_fit();\n        }\n"))
m('c26-mut', 'C26', V, ("fn ord_byte_len(max_ord: usize) -> usize {\n", "static mut LAST: (usize, usize) = (0, 0);\n\nfn ord_byte_len(max_ord: usize) -> usize {\n    unsafe {\n        if LAST.0 == max_ord {\n            return LAST.1;\n        }\n    }\n"), ("        bytes += 1;\n    }\n\n    bytes\n", "        bytes += 1;\n    }\n\n    unsafe {\n        LAST = (max_ord, bytes);\n    }\n    bytes\n"))
m('c26-tls', 'C26', V, ("fn ord_byte_len(max_ord: usize) -> usize {\n", "thread_local! {\n    static LAST: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0));\n}\n\nfn ord_byte_len(max_ord: usize) -> usize {\n    let (last, len) = LAST.with(|l| l.get());\n    if last == max_ord {\n        return len;\n    }\n"), ("        bytes += 1;\n    }\n\n    bytes\n", "        bytes += 1;\n    }\n\n    LAST.set((max_ord, bytes));\n    bytes\n"))
m('c26-env', 'C26', C, ("            dbg_log: dbg_log.map(", "            dbg_log: dbg_log.filter(|_| std::env::var_os(\"BINSCHEMA_NO_LOG\").is_none()).map("))
m('c26-clock', 'C26', D, ("    fn read_to_buf(&mut self, buf: &mut Vec<u8>, len: usize) -> Result<()> {\n", "    fn read_to_buf(&mut self, buf: &mut Vec<u8>, len: usize) -> Result<()> {\n        let start = std::time::Instant::now();\n        let _ = start;\n"))
m('c26-table', 'C26', VA, ("                let mut fields = Vec::with_capacity(schema_fields.len());\n", "                let mut fields = std::collections::HashMap::new();\n"), ("                    fields.push(StructValueField {\n                        name: schema_field.name.clone(),\n                        value: Value::decode_from(d)?,\n                    });\n", "                    fields.insert(schema_field.name.clone(), Value::decode_from(d)?);\n"), ("                Value::Struct(fields)\n", "                Value::Struct(fields.into_iter().map(|(name, value)| StructValueField { name, value }).collect())\n"))
m('c26-address', 'C26', KS, ("                if curr_val as usize == T::schema as usize {", "                if curr_val as usize == T::schema as usize && (curr as *const Node as usize) & 1 == 0 {"))
m('c26-print', 'C26', C, ("    pub(crate) fn mark_broken(&mut self) {\n", "    pub(crate) fn mark_broken(&mut self) {\n        if self.stack.len() > 1000 {\n            println!(\"deep\");\n        }\n"))
m('c26-once', 'C26', KS, ("    pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {\n        self.find_node::<T>().map(|(level, _)| level)\n", "    pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {\n        static FIRST: std::sync::OnceLock<Option<usize>> = std::sync::OnceLock::new();\n        let found = self.find_node::<T>().map(|(level, _)| level);\n        FIRST.get_or_init(|| found).and(found)\n"))
m('c26-refcell', 'C26', ER, ("    pub fn kind(&self) -> ErrorKind {\n", "    pub fn kind(&self) -> ErrorKind {\n        static SEEN: std::sync::Mutex<u32> = std::sync::Mutex::new(0);\n        *SEEN.lock().unwrap() += 1;\n"))
m('ok-static', 'ok', C, ("        dbg_log!(self, \"none\");\n", "        static WORD: &str = \"none\";\n        dbg_log!(self, \"{}\", WORD);\n"))
m('ok-static2', 'ok', VL, ("    let curr_7_bits =\n        ((neg as u8) << 6)\n", "    static SIGN: [u8; 2] = [0, 1 << 6];\n    let curr_7_bits =\n        SIGN[neg as usize]\n"))
m('ok-once', 'ok', KS, ("impl KnownSchema for Schema {\n    fn schema(_: RecurseStack) -> Schema {\n", "impl KnownSchema for Schema {\n    fn schema(_: RecurseStack) -> Schema {\n        static SCHEMA: std::sync::OnceLock<Schema> = std::sync::OnceLock::new();\n        SCHEMA.get_or_init(meta_schema).clone()\n    }\n}\n\nfn meta_schema() -> Schema {\n    {\n"))
m('c25-zero', 'C25', E, ("        self.write\n            .write_all(b)\n            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n", "        let mut rest = b;\n        while !rest.is_empty() {\n            match self.write.write(rest) {\n                Ok(n) => rest = &rest[n..],\n                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,\n                Err(e) => {\n                    self.state.mark_broken();\n                    return Err(Error::from(e));\n                }\n            }\n        }\n        Ok(())\n"))
m('c25-eof', 'C25', D, ("        self.read\n            .read_exact(buf.borrow_mut())\n            .do_if_err(|| self.state.mark_broken())?;\n", "        let b: &mut [u8] = buf.borrow_mut();\n        let mut at = 0;\n        while at < b.len() {\n            at += self.read.read(&mut b[at..]).do_if_err(|| self.state.mark_broken())?;\n        }\n"))
m('ok-write-loop', 'ok', E, ("        self.write\n            .write_all(b)\n            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n", "        let mut rest = b;\n        while !rest.is_empty() {\n            match self.write.write(rest) {\n                Ok(0) => {\n                    self.state.mark_broken();\n                    return Err(Error::from(std::io::Error::from(std::io::ErrorKind::WriteZero)));\n                }\n                Ok(n) => rest = &rest[n..],\n                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,\n                Err(e) => {\n                    self.state.mark_broken();\n                    return Err(Error::from(e));\n                }\n            }\n        }\n        Ok(())\n"))
m('ok-read-loop', 'ok', D, ("        self.read\n            .read_exact(buf.borrow_mut())\n            .do_if_err(|| self.state.mark_broken())?;\n", "        let b: &mut [u8] = buf.borrow_mut();\n        let mut at = 0;\n        while at < b.len() {\n            match self.read.read(&mut b[at..]) {\n                Ok(0) => {\n                    self.state.mark_broken();\n                    return Err(Error::from(std::io::Error::from(ErrorKind::UnexpectedEof)));\n                }\n                Ok(n) => at += n,\n                Err(e) if e.kind() == ErrorKind::Interrupted => {}\n                Err(e) => {\n                    self.state.mark_broken();\n                    return Err(Error::from(e));\n                }\n            }\n        }\n"))

# --- another round over the core (C01-C09, C14, C16, C17), from the statements alone
m('x01-depth', 'C01', C, ("        self.stack.push(StackFrame {\n            schema,\n            parent,\n", "        ensure!(self.stack.len() < 512, PlatformLimits, Some(self), \"too deep\");\n        self.stack.push(StackFrame {\n            schema,\n            parent,\n"))
m('x01-field-search', 'C01', C, ("""            .get(*next);
        let field =""", """            .get(*next);
        let field = field.map(|f| if f.name != name { match_or_unreachable!(schema, &Schema::Struct(ref fields) => fields).get(*next + 1).filter(|g| g.name == name).unwrap_or(f) } else { f });
        let field ="""))
m('x01-trim', 'C01', C, ("            &field.name == name,", "            field.name.trim_start_matches(\"r#\") == name,"))
m('x01-need-open', 'C01', C, ("""                schema,
                api_state: ApiState::Need,
                ..
            }) => Ok(schema),""", """                schema,
                api_state: ApiState::Need | ApiState::Tuple { next: 0 },
                ..
            }) => Ok(schema),"""))
m('x01-seq-early', 'C01', C, ("            len == next,\n", "            len == next || (next > 0 && len == usize::MAX),\n"))
m('x01-autofin8', 'C01', C, ("        self.stack.pop().unwrap();\n        while matches!(", "        self.stack.pop().unwrap();\n        let mut left = 8;\n        while { left -= 1; left >= 0 } && matches!("))
m('x01-dec-field', 'C01', D, ("        self.state.begin_struct_field(name)?;", "        let name = match self.state.need() { Ok(_) => name, Err(_) => name };\n        self.state.begin_struct_field(name.trim_end())?;"))
m('x01-enc-some-unit', 'C01', E, ("        self.state.set_option_some()?;\n        self.write(&[1])?;", "        self.state.set_option_some()?;\n        if let Ok(&Schema::Unit) = self.state.need() { self.state.code_unit()?; }\n        self.write(&[1])?;"))
m('x01-eq-kind', 'C01', C, ("                    && s.schema == &$got", "                    && (s.schema == &$got || matches!((s.schema, &$got), (&Schema::Bytes, &Schema::Str)))"))
m('x02-seq-next', 'C02', C, ("        ensure!(\n            *next < len,\n            ApiUsage,", "        let was = *next;\n        *next = was.saturating_add(1);\n        ensure!(\n            was < len,\n            ApiUsage,"), ("            *next\n        );\n        *next += 1;", "            *next\n        );"))
m('x02-tuple-next', 'C02', C, ("""                None => bail!(
                    SchemaNonConformance,
                    Some(self),
                    "begin tuple elem at idx {}, but that is the tuple's len",
                    *next,
                ),
            };
        *next += 1;""", """                None => {
                    *next += 1;
                    bail!(
                        SchemaNonConformance,
                        Some(self),
                        "begin tuple elem past the tuple's len",
                    )
                }
            };
        *next += 1;"""))
m('x02-cancel-state', 'C02', C, ("        dbg_log_pop!(self, \"enum\");\n        self.top().api_state = ApiState::Need;", "        dbg_log_pop!(self, \"enum\");\n        self.top().api_state = if self.stack.len() == 1 { ApiState::Need } else { ApiState::Enum { variant_ord: None } };"))
m('x02-ord-early', 'C02', E, ("        self.state\n            .begin_enum_variant_name(variant_name)\n            .do_if_err(|| self.state.cancel_enum())?;\n\n        write_ord(&mut self.write, variant_ord, num_variants)\n            .do_if_err(|| self.state.mark_broken())?;", "        write_ord(&mut self.write, variant_ord, num_variants)\n            .do_if_err(|| self.state.mark_broken())?;\n        self.state\n            .begin_enum_variant_name(variant_name)\n            .do_if_err(|| self.state.cancel_enum())?;"))
m('x02-dec-variant', 'C02', D, ("        self.state.begin_enum_variant_name(name)?;", "        self.state.begin_enum_variant_name(name).do_if_err(|| self.state.cancel_enum())?;"))
m('x02-fixed-state', 'C02', C, ("""        ensure!(
            fixed_len == len,""", """        self.top().api_state = ApiState::Seq { len: fixed_len, next: 0 };
        ensure!(
            fixed_len == len,"""))
m('x03-wouldblock', 'C03', E, ("            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())", "            .map_err(|e| { if e.kind() != std::io::ErrorKind::WouldBlock { self.state.mark_broken(); } Error::from(e) })"))
m('x03-past', 'C03', C, ("                .do_if_err(|| self.broken = true)?;", "                .do_if_err(|| self.broken |= n < 1024)?;"))
m('x03-order', 'C03', C, ("        ensure!(\n            !$self.broken,\n            ApiUsage,\n            Some($self),\n            \"usage after IO error\",\n        );", "        ensure!(\n            !$self.broken || $self.stack.len() > 256,\n            ApiUsage,\n            Some($self),\n            \"usage after IO error\",\n        );"))
m('x03-utf8', 'C03', D, ("                self.state.mark_broken();\n                let mut bbuf = e.into_bytes();", "                if e.utf8_error().error_len().is_some() { self.state.mark_broken(); }\n                let mut bbuf = e.into_bytes();"))
m('x03-heal', 'C03', C, ("        self.stack.pop().unwrap();\n        while matches!(", "        self.stack.pop().unwrap();\n        self.broken = false;\n        while matches!("))
m('x03-none-order', 'C03', E, ("        self.state.begin_option()?;\n        self.state.set_option_none();\n        self.write(&[0])?;\n        Ok(())", "        self.state.begin_option()?;\n        self.state.set_option_none();\n        self.write.write_all(&[0])?;\n        Ok(())"))
m('x04-nan', 'C04', E, ("        encode_f64(f64) code_f64,\n    );", "    );\n\n    /// .\n    pub fn encode_f64(&mut self, n: f64) -> Result<()> {\n        self.state.code_f64()?;\n        let n = if n.is_nan() { f64::NAN } else { n };\n        self.write(&n.to_le_bytes())\n    }\n"))
m('x04-negzero', 'C04', E, ("        encode_f32(f32) code_f32,\n", ""), ("    /// Encode a `bool`", "    /// .\n    pub fn encode_f32(&mut self, n: f32) -> Result<()> {\n        self.state.code_f32()?;\n        self.write(&(n + 0.0).to_le_bytes())\n    }\n\n    /// Encode a `bool`") if "    /// Encode a `bool`" in open('/repo/binschema/src/encoder.rs').read() else ("    pub fn encode_bool", "    pub fn encode_f32(&mut self, n: f32) -> Result<()> {\n        self.state.code_f32()?;\n        self.write(&(n + 0.0).to_le_bytes())\n    }\n\n    pub fn encode_bool"))
m('x04-uint-top', 'C04', V, ("        n >>= 7;\n        more = n != 0;\n        let curr_byte = ((more as u8) << 7) | curr_7_bits;\n        write.write_all(&[curr_byte])?;\n    }\n    Ok(())\n}", "        n = (n as u64 >> 7) as u128 | (n >> 64 << 57);\n        more = n as u64 != 0;\n        let curr_byte = ((more as u8) << 7) | curr_7_bits;\n        write.write_all(&[curr_byte])?;\n    }\n    Ok(())\n}"))
m('x04-enum1', 'C04', V, ("    let used_bytes = &all_bytes[..byte_len];\n    write", "    let used_bytes = &all_bytes[..byte_len.max((num_variants == 1 << 16) as usize * 3)];\n    write"))
m('x04-seq-fixed-len', 'C04', E, ("        self.state.begin_fixed_len_seq(len)?;\n        Ok(())", "        self.state.begin_fixed_len_seq(len)?;\n        if len > u32::MAX as usize { self.write(&[0])?; }\n        Ok(())"))
m('x05-bufreader', 'C05', D, ("        (&mut *self.read)\n            .take(len as u64)\n", "        std::io::BufReader::new(&mut *self.read)\n            .take(len as u64)\n"))
m('x05-bom', 'C05', D, ("            Ok(s) => {\n                *buf = s;", "            Ok(s) => {\n                *buf = if s.starts_with('\\u{feff}') { s[3..].to_owned() } else { s };"))
m('x05-nan', 'C05', D, ("        decode_f64(f64) code_f64,\n    );", "    );\n\n    /// .\n    pub fn decode_f64(&mut self) -> Result<f64> {\n        self.state.code_f64()?;\n        let buf = self.read([0; 8])?;\n        Ok(f64::from_le_bytes(buf) * 1.0)\n    }\n"))
m('x05-peek', 'C05', D, ("        self.read_to_buf(buf, len)?;\n        Ok(())", "        self.read_to_buf(buf, len)?;\n        if len == 0 { let mut z = [0; 0]; let _ = self.read.read(&mut z); let _ = self.read.read(&mut [0; 1][..(buf.capacity() > 0) as usize]); }\n        Ok(())"))
m('x05-append', 'C05', D, ("        // always clear the buf, for consistency\n        buf.clear();\n\n        self.state.code_bytes()?;\n        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;", "        self.state.code_bytes()?;\n        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;\n        if len > 0 { buf.clear(); }"))
m('x06-lossy', 'C06', D, ("        match String::from_utf8(bbuf) {", "        match if len > 4096 { Ok(String::from_utf8_lossy(&bbuf).into_owned()) } else { String::from_utf8(bbuf) } {"))
m('x06-sint-wrap', 'C06', V, ("            bits <= i128::MAX >> shift,", "            bits <= i128::MAX >> shift || shift >= 126,"))
m('x06-pad', 'C06', V, ("            shift < 128,\n            MalformedData,\n            None,\n            \"too many bytes in var len sint\",", "            shift < 135,\n            MalformedData,\n            None,\n            \"too many bytes in var len sint\","))
m('x06-ord-kind', 'C06', V, ("    ensure!(\n        ord < num_variants as u64,", "    ensure!(\n        ord < num_variants as u64 || ord > u32::MAX as u64,"))
m('x06-char-repl', 'C06', D, ("        char::from_u32(n)\n", "        char::from_u32(n).or(if n > 0x10ffff && n < 0x110100 { Some(char::REPLACEMENT_CHARACTER) } else { None })\n"))
m('x07-noclear', 'C07', D, ("        if let Err(e) = self.read_to_buf(&mut bbuf, len) {\n            bbuf.clear();", "        if let Err(e) = self.read_to_buf(&mut bbuf, len) {"))
m('x07-parent', 'C07', C, ("                    None => break,\n                };\n            }\n            let target = target\n", "                    None => break,\n                };\n            }\n            let _above = target.map(|i| self.stack[i].parent.map_or(0, |p| i - p - 1));\n            let target = target\n"))
m('x07-sub', 'C07', C, ("            \"finish seq of declared len {}, but only coded {} elems\",\n            len,\n            next\n", "            \"finish seq of declared len {}, but only coded {} elems ({} more expected)\",\n            len,\n            next,\n            i32::try_from(len - next).unwrap(),\n"))
m('x07-name-slice', 'C07', C, ("        dbg_log!(self, \"begin struct field {:?}\", name);", "        dbg_log!(self, \"begin struct field {:?}\", &name[..name.len().min(32)]);"))
m('x07-need', 'C07', C, ("        match self.stack.iter().rev().next() {\n            Some(&StackFrame {\n                schema: &Schema::Recurse(_),", "        match Some(&self.stack[self.stack.len() - 1]) {\n            Some(&StackFrame {\n                schema: &Schema::Recurse(_),"))
m('x08-value-tuple', 'C08', VA, ("                let len = d.begin_var_len_seq()?;\n                let mut elems = Vec::new();", "                let len = d.begin_var_len_seq()?;\n                let mut elems = Vec::new();\n                let _ = elems.try_reserve(len);"))
m('x08-grow', 'C08', D, ("        (&mut *self.read)\n            .take(len as u64)\n            .read_to_end(buf)\n", "        buf.reserve_exact(len.min(1 << 30));\n        (&mut *self.read)\n            .take(len as u64)\n            .read_to_end(buf)\n"))
m('x08-string', 'C08', D, ("        let mut bbuf = take(buf).into_bytes();", "        let mut bbuf = take(buf).into_bytes();\n        if bbuf.capacity() < len { bbuf = Vec::with_capacity(len); }"))
m('x08-stack', 'C08', C, ("        dbg_log_push!(self, \"seq, var len={}\", len);", "        self.stack.reserve(len.min(self.stack.len() << 20));\n        dbg_log_push!(self, \"seq, var len={}\", len);"))
m('x09-minus', 'C09', C, ("                    Some(i) => self.stack[i].parent,\n                    None => break,", "                    Some(i) => i.checked_sub(1),\n                    None => break,"))
m('x09-selfparent', 'C09', C, ("            parent = self.stack[target].parent;", "            if target > 0 { parent = self.stack[target].parent; }"))
m('x09-root', 'C09', C, ("            let target = target\n                .ok_or_else", "            let target = target.or(if n > 1 && self.stack.len() == n { Some(0) } else { None })\n                .ok_or_else"))
m('x14-nt', 'C14', SER, ("        self.begin_enum(variant_index as usize, variant)?;\n        value.serialize(self)", "        self.begin_enum(variant_index as usize, variant)?;\n        match self.need()? { &Schema::Unit => self.encode_unit(), _ => value.serialize(self) }"))
m('x14-opt-unit', 'C14', DE, ("            true => v.visit_some(self)", "            true => if let Ok(&Schema::Unit) = self.need() { self.decode_unit()?; v.visit_unit() } else { v.visit_some(self) }"))
m('x14-ignored', 'C14', DE, ("        self.deserialize_any(v)\n", "        match self.need()? { &Schema::Option(_) => { if self.begin_option()? { self.deserialize_any(v) } else { v.visit_none() } } _ => self.deserialize_any(v) }\n"))
m('x14-tvlen', 'C14', DE, ("        self.deserialize_tuple(len, visitor)", "        let _ = len;\n        self.deserialize_seq(visitor)"))
m('x14-seq-none', 'C14', SER, ("self.begin_fixed_len_seq(got_len.unwrap_or(len))?;", "self.begin_fixed_len_seq(len)?;"))
m('x14-map-fin', 'C14', DE, ("        self.decoder.finish_tuple()?;\n\n        if self.remaining == 0 {\n            self.decoder.finish_seq()?;\n        }\n\n        Ok(value)", "        self.decoder.finish_tuple()?;\n\n        Ok(value)"), ("        } else {\n            Ok(None)\n        }\n    }\n\n    fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value>\n    where\n        V: DeserializeSeed<'d>,\n    {\n        self.decoder.begin_tuple_elem()?;", "        } else {\n            self.decoder.finish_seq()?;\n            Ok(None)\n        }\n    }\n\n    fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value>\n    where\n        V: DeserializeSeed<'d>,\n    {\n        self.decoder.begin_tuple_elem()?;"))
m('x16-early', 'C16', C, ("        dbg_log_pop!(self, \"struct\");\n        self.pop();", "        self.pop();\n        if !self.stack.is_empty() { dbg_log_pop!(self, \"struct\"); }"))
m('x16-flush', 'C16', C, ("        dbg_log_push!(self, \"tuple\");", "        dbg_log_push!(self, \"tuple\");\n        if let Some(ref mut l) = self.dbg_log { let _ = l.write.flush().map_err(|_| self.broken = true); }"))
m('x16-log-gate', 'C16', C, ("        dbg_log_push!(self, \"some\");\n        self.push_need(inner)?;", "        self.push_need(inner)?;\n        dbg_log!(self, \"some\");"))
m('x16-before', 'C16', C, ("        ensure!(\n            fixed_len == len,", "        dbg_log_push!(self, \"seq, fixed len={}\", len);\n        ensure!(\n            fixed_len == len,"), ("        dbg_log_push!(self, \"seq, fixed len={}\", len);\n        self.top()", "        self.top()"))
m('x17-eof', 'C17', D, ("            .read_exact(buf.borrow_mut())\n            .do_if_err(|| self.state.mark_broken())?;", "            .read_exact(buf.borrow_mut())\n            .or_else(|e| if e.kind() == ErrorKind::UnexpectedEof { Err(error!(MalformedData, Some(&*self.state), \"truncated\")) } else { Err(Error::from(e)) })\n            .do_if_err(|| self.state.mark_broken())?;"))
m('x17-partial', 'C17', D, ("            .read_to_end(buf)\n            .and_then(", "            .read_to_end(buf)\n            .or_else(|e| if buf.is_empty() { Err(e) } else { Ok(buf.len()) })\n            .and_then("))
m('x17-flush', 'C17', E, ("        self.state.finish_struct()?;\n        Ok(())", "        self.state.finish_struct()?;\n        if self.state.is_finished() { let _ = self.write.flush(); }\n        Ok(())"))
m('x17-retry', 'C17', E, ("            .write_all(b)\n            .map_err(Error::from)", "            .write_all(b)\n            .or_else(|e| if e.kind() == std::io::ErrorKind::WriteZero { Ok(()) } else { Err(e) })\n            .map_err(Error::from)"))
m('x17-newio', 'C17', V, ("        let mut buf = [0];\n        read.read_exact(&mut buf)?;\n        let [curr_byte] = buf;\n\n        let bits = (curr_byte & LO_7_BITS) as u128;", "        let mut buf = [0];\n        read.read_exact(&mut buf).map_err(|e| std::io::Error::new(e.kind(), \"in var len uint\"))?;\n        let [curr_byte] = buf;\n\n        let bits = (curr_byte & LO_7_BITS) as u128;"))

# --- C27
SC27 = "#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]\n"
SN = "#[derive(Debug, Clone, Eq, Ord, PartialOrd, Hash, Serialize, Deserialize)]\n"
SCN = "#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]\n"
SON = "#[derive(Debug, Clone, Eq, PartialEq, Hash, Serialize, Deserialize)]\n"
FLD, VAR, SEQ, ENUM = "pub struct StructSchemaField {", "pub struct EnumSchemaVariant {", "pub struct SeqSchema {", "pub enum Schema {"
def peq(ty, body): return "impl PartialEq for %s {\n    fn eq(&self, o: &Self) -> bool {\n        %s\n    }\n}\n\n" % (ty, body)
def pcl(ty, body): return "impl Clone for %s {\n    fn clone(&self) -> Self {\n        %s\n    }\n}\n\n" % (ty, body)
def pord(ty, body): return "impl PartialOrd for %s {\n    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }\n}\nimpl Ord for %s {\n    fn cmp(&self, o: &Self) -> std::cmp::Ordering {\n        %s\n    }\n}\n\n" % (ty, ty, body)
def m27(id, prop, head, derive, impl):
    m(id, prop, SC, (SC27 + head, impl + derive + head))
m27('c27-name-case', 'C27', FLD, SN, peq('StructSchemaField', "self.name.eq_ignore_ascii_case(&o.name) && self.inner == o.inner"))
m27('c27-name-len', 'C27', FLD, SN, peq('StructSchemaField', "self.name.len() == o.name.len() && self.inner == o.inner"))
m27('c27-field-inner', 'C27', FLD, SN, peq('StructSchemaField', "self.name == o.name && std::mem::discriminant(&self.inner) == std::mem::discriminant(&o.inner)"))
m27('c27-var-name', 'C27', VAR, SN, peq('EnumSchemaVariant', "self.inner == o.inner || self.name == o.name"))
m27('c27-seq-len', 'C27', SEQ, SN, peq('SeqSchema', "self.inner == o.inner && (self.len == o.len || self.len.is_none())"))
m27('c27-seq-ptr', 'C27', SEQ, SN, peq('SeqSchema', "self.len.unwrap_or(0) == o.len.unwrap_or(0) && self.inner == o.inner"))
m27('c27-clone-len', 'C27', SEQ, SCN, pcl('SeqSchema', "SeqSchema { len: self.len.filter(|&n| n > 0), inner: self.inner.clone() }"))
m27('c27-clone-name', 'C27', FLD, SCN, pcl('StructSchemaField', "StructSchemaField { name: self.name.trim().to_owned(), inner: self.inner.clone() }"))
m27('c27-clone-trunc', 'C27', VAR, SCN, pcl('EnumSchemaVariant', "EnumSchemaVariant { name: self.name.chars().take(255).collect(), inner: self.inner.clone() }"))
m27('c27-ord-name', 'C27', FLD, SON, pord('StructSchemaField', "self.name.cmp(&o.name)"))
m27('c27-ord-len', 'C27', SEQ, SON, pord('SeqSchema', "self.inner.cmp(&o.inner).then(self.len.unwrap_or(0).cmp(&o.len.unwrap_or(0)))"))
EQS = """match (self, o) {
            (Schema::Scalar(a), Schema::Scalar(b)) => a == b,
            (Schema::Str, Schema::Str) | (Schema::Bytes, Schema::Bytes) | (Schema::Unit, Schema::Unit) => true,
            (Schema::Option(a), Schema::Option(b)) => a == b,
            (Schema::Seq(a), Schema::Seq(b)) => a == b,
            (Schema::Tuple(a), Schema::Tuple(b)) => TUPLE,
            (Schema::Struct(a), Schema::Struct(b)) => STRUCT,
            (Schema::Enum(a), Schema::Enum(b)) => a == b,
            (Schema::Recurse(a), Schema::Recurse(b)) => a == b,
            _ => false,
        }"""
m27('c27-zip', 'C27', ENUM, SN, peq('Schema', EQS.replace('TUPLE', 'a.iter().zip(b).all(|(a, b)| a == b)').replace('STRUCT', 'a == b')))
m27('c27-last', 'C27', ENUM, SN, peq('Schema', EQS.replace('TUPLE', 'a == b').replace('STRUCT', 'a.len() == b.len() && a.first() == b.first() && a.last() == b.last()')))
m27('c27-ten', 'C27', ENUM, SN, peq('Schema', EQS.replace('TUPLE', 'a == b').replace('STRUCT', 'a.len() == b.len() && a.iter().zip(b).take(10).all(|(a, b)| a == b)')))
m27('c27-rec', 'C27', ENUM, SN, peq('Schema', EQS.replace('TUPLE', 'a == b').replace('STRUCT', 'a == b').replace("(Schema::Recurse(a), Schema::Recurse(b)) => a == b", "(Schema::Recurse(a), Schema::Recurse(b)) => (*a as u16) == (*b as u16)")))
m27('c27-unit', 'C27', ENUM, SN, peq('Schema', EQS.replace('TUPLE', 'a == b').replace('STRUCT', 'a == b').replace("            _ => false", "            (Schema::Unit, Schema::Tuple(t)) | (Schema::Tuple(t), Schema::Unit) => t.is_empty(),\n            _ => false")))
m27('ok-eq-zip', 'ok', ENUM, SN, peq('Schema', EQS.replace('TUPLE', 'a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b)').replace('STRUCT', '{ if a.len() != b.len() { return false; } for i in 0..a.len() { if a[i] != b[i] { return false; } } true }')))
m27('ok-eq-field', 'ok', FLD, SN, peq('StructSchemaField', "let StructSchemaField { name, inner } = self;\n        inner == &o.inner && name.as_bytes() == o.name.as_bytes()"))
m27('ok-eq-seq', 'ok', SEQ, SN, peq('SeqSchema', "match (self.len, o.len) { (Some(a), Some(b)) if a != b => false, (Some(_), None) | (None, Some(_)) => false, _ => *self.inner == *o.inner }"))
m27('ok-ord-field', 'ok', FLD, SON, pord('StructSchemaField', "self.name.cmp(&o.name).then_with(|| self.inner.cmp(&o.inner))"))
m27('ok-clone-field', 'ok', FLD, SCN, pcl('StructSchemaField', "StructSchemaField { name: String::from(self.name.as_str()), inner: Schema::clone(&self.inner) }"))
m27('ok-clone-seq', 'ok', SEQ, SCN, pcl('SeqSchema', "let inner = Box::new((*self.inner).clone());\n        SeqSchema { inner, ..SeqSchema { len: self.len, inner: Box::new(Schema::Unit) } }"))
m('c27-value-seq', 'C27', VA, ("#[derive(Debug, Clone, PartialEq, PartialOrd)]\npub enum Value {", """impl PartialEq for Value {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Value::Scalar(a), Value::Scalar(b)) => a == b,
            (Value::Str(a), Value::Str(b)) => a == b,
            (Value::Bytes(a), Value::Bytes(b)) => a == b,
            (Value::Unit, Value::Unit) => true,
            (Value::Option(a), Value::Option(b)) => a == b,
            (Value::FixedLenSeq(a) | Value::VarLenSeq(a), Value::FixedLenSeq(b) | Value::VarLenSeq(b)) => a == b,
            (Value::Tuple(a), Value::Tuple(b)) => a == b,
            (Value::Struct(a), Value::Struct(b)) => a == b,
            (Value::Enum(a), Value::Enum(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Debug, Clone, PartialOrd)]
pub enum Value {"""))
m('c27-enum-ord', 'C27', VA, ("#[derive(Debug, Clone, PartialEq, PartialOrd)]\npub struct EnumValue {", """impl PartialEq for EnumValue {
    fn eq(&self, o: &Self) -> bool {
        self.variant_name == o.variant_name && self.value == o.value
    }
}

#[derive(Debug, Clone, PartialOrd)]
pub struct EnumValue {"""))
m('c27-kind', 'C27', ER, ("#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]", """impl PartialEq for ErrorKind {
    fn eq(&self, o: &Self) -> bool {
        (*self as u8).min(5) == (*o as u8).min(5)
    }
}

#[derive(Debug, Copy, Clone, Eq, Ord, PartialOrd, Hash)]"""))
m27('ok27-tuple', 'ok', FLD, SN, peq('StructSchemaField', "(&self.name, &self.inner) == (&o.name, &o.inner)"))
m27('ok27-asstr', 'ok', VAR, SN, peq('EnumSchemaVariant', "if self.name.as_str() != o.name.as_str() { return false; }\n        let (a, b) = (&self.inner, &o.inner);\n        a.eq(b)"))
m27('ok27-cmp', 'ok', VAR, SN, peq('EnumSchemaVariant', "self.name.cmp(&o.name).is_eq() && !(self.inner != o.inner)"))
m27('ok27-iter', 'ok', ENUM, SN, peq('Schema', EQS.replace('TUPLE', 'a.iter().eq(b.iter())').replace('STRUCT', 'a.len() == b.len() && !a.iter().zip(b.iter()).any(|(a, b)| a != b)')))
m27('ok27-slice', 'ok', ENUM, SN, peq('Schema', EQS.replace('TUPLE', 'a[..] == b[..]').replace('STRUCT', 'a.as_slice() == b.as_slice()')))
m27('ok27-disc', 'ok', ENUM, SN, peq('Schema', "if std::mem::discriminant(self) != std::mem::discriminant(o) { return false; }\n        " + EQS.replace('TUPLE', 'a == b').replace('STRUCT', 'a == b').replace('_ => false', '_ => unreachable!()')))
m27('ok27-split', 'ok', ENUM, SN, peq('Schema', EQS.replace('TUPLE', 'match (a.split_first(), b.split_first()) { (None, None) => true, (Some((x, xs)), Some((y, ys))) => x == y && xs == ys, _ => false }').replace('STRUCT', 'a == b')))
m27('ok27-ordtuple', 'ok', SEQ, SON, pord('SeqSchema', "(self.len, &self.inner).cmp(&(o.len, &o.inner))"))
m27('ok27-ordmatch', 'ok', FLD, SON, pord('StructSchemaField', "use std::cmp::Ordering::*;\n        match self.name.cmp(&o.name) { Equal => self.inner.cmp(&o.inner), r => r }"))
m27('ok27-ordif', 'ok', VAR, SON, pord('EnumSchemaVariant', "if self == o { std::cmp::Ordering::Equal } else if (&self.name, &self.inner) < (&o.name, &o.inner) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }"))
m27('ok27-clonematch', 'ok', ENUM, SCN, pcl('Schema', "match self { Schema::Scalar(s) => Schema::Scalar(*s), Schema::Str => Schema::Str, Schema::Bytes => Schema::Bytes, Schema::Unit => Schema::Unit, Schema::Option(i) => Schema::Option(Box::new(Schema::clone(i))), Schema::Seq(s) => Schema::Seq(SeqSchema { len: s.len, inner: s.inner.clone() }), Schema::Tuple(t) => Schema::Tuple(t.to_vec()), Schema::Struct(f) => Schema::Struct(f.iter().cloned().collect()), Schema::Enum(v) => Schema::Enum(v.iter().map(|v| v.clone()).collect()), Schema::Recurse(n) => Schema::Recurse(*n) }"))
m27('ok27-clonestr', 'ok', VAR, SCN, pcl('EnumSchemaVariant', "let mut name = String::with_capacity(self.name.len());\n        name.push_str(&self.name);\n        EnumSchemaVariant { name, inner: self.inner.clone() }"))
m27('ok27-clonefmt', 'ok', VAR, SCN, pcl('EnumSchemaVariant', "EnumSchemaVariant { name: self.name.to_string(), inner: self.inner.to_owned() }"))
m27('ok27-hash', 'ok', FLD, "#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Serialize, Deserialize)]\n", "impl std::hash::Hash for StructSchemaField {\n    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.name.hash(h); self.inner.hash(h); }\n}\n\n")
m27('c27-clone-last', 'C27', ENUM, SCN, pcl('Schema', "match self { Schema::Scalar(s) => Schema::Scalar(*s), Schema::Str => Schema::Str, Schema::Bytes => Schema::Bytes, Schema::Unit => Schema::Unit, Schema::Option(i) => Schema::Option(Box::new(Schema::clone(i))), Schema::Seq(s) => Schema::Seq(SeqSchema { len: s.len, inner: s.inner.clone() }), Schema::Tuple(t) => Schema::Tuple(t[..t.len().min(64)].to_vec()), Schema::Struct(f) => Schema::Struct(f.iter().cloned().collect()), Schema::Enum(v) => Schema::Enum(v.clone()), Schema::Recurse(n) => Schema::Recurse(*n) }"))
m27('c27-clone-rec', 'C27', ENUM, SCN, pcl('Schema', "match self { Schema::Scalar(s) => Schema::Scalar(*s), Schema::Str => Schema::Str, Schema::Bytes => Schema::Bytes, Schema::Unit => Schema::Unit, Schema::Option(i) => Schema::Option(i.clone()), Schema::Seq(s) => Schema::Seq(s.clone()), Schema::Tuple(t) if t.is_empty() => Schema::Unit, Schema::Tuple(t) => Schema::Tuple(t.clone()), Schema::Struct(f) => Schema::Struct(f.clone()), Schema::Enum(v) => Schema::Enum(v.clone()), Schema::Recurse(n) => Schema::Recurse(*n) }"))
WR = ("        self.write\n            .write_all(b)\n            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n    }\n\n    encode_le")
m('c17-bufwriter', 'C17', E, (WR, "        std::io::BufWriter::new(&mut *self.write)\n            .write_all(b)\n            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n    }\n\n    encode_le"))
m('ok-bufwriter', 'ok', E, (WR, "        let mut w = std::io::BufWriter::new(&mut *self.write);\n        w.write_all(b).and_then(|()| w.flush())\n            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n    }\n\n    encode_le"))
m('ok-vecwrite', 'ok', E, (WR, "        let mut tmp: Vec<u8> = Vec::new();\n        Write::write_all(&mut tmp, b)?;\n        self.write\n            .write_all(&tmp)\n            .map_err(Error::from)\n            .do_if_err(|| self.state.mark_broken())\n    }\n\n    encode_le"))
m('ok-vecuint', 'ok', E, ("        self.state.code_str()?;\n", "        self.state.code_str()?;\n        let mut tmp = Vec::new();\n        write_var_len_uint(&mut tmp, s.len() as u128)?;\n        tmp.extend_from_slice(s.as_bytes());\n        return self.write(&tmp);\n        #[allow(unreachable_code)]\n"))
m('c04-vecuint', 'C04', E, ("        self.state.code_str()?;\n", "        self.state.code_str()?;\n        let mut tmp = Vec::new();\n        write_var_len_uint(&mut tmp, s.len() as u128 + 1)?;\n        tmp.extend_from_slice(s.as_bytes());\n        return self.write(&tmp);\n        #[allow(unreachable_code)]\n"))
TB = """        (&mut *self.read)
            .take(len as u64)
            .read_to_end(buf)
            .and_then(|n| if n == len {"""
def take(pre, n):
    return """        let mut from = PRE;
        let mut chunk = [0u8; 512];
        let mut got = 0;
        let all = loop {
            match from.read(&mut chunk) {
                Ok(0) => break Ok(got),
                Ok(n) => { got += NN; buf.extend_from_slice(&chunk[..n]); }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(e) => break Err(e),
            }
        };
        all
            .and_then(|n| if n == len {""".replace('PRE', pre).replace('NN', n)
m('ok-takeread', 'ok', D, (TB, take('(&mut *self.read).take(len as u64)', 'n')))
m('ok-takebuf', 'ok', D, (TB, TB.replace("(&mut *self.read)\n            .take(len as u64)", "std::io::BufReader::new((&mut *self.read).take(len as u64))")))
m('c05-takemore', 'C05', D, (TB, take('(&mut *self.read).take(len as u64 + 1)', 'n.min(len - got)')))
m('ok-prefix', 'ok', D, ("            Ok(s) => {\n                *buf = s;", "            Ok(s) => {\n                if s.starts_with('\\u{feff}') && s[3..].len() == usize::MAX { return Ok(()); }\n                *buf = s;"))
m('c07-cutname', 'C07', C, ("    pub(crate) fn begin_struct_field(&mut self, name: &str) -> Result<()> {\n", "    pub(crate) fn begin_struct_field(&mut self, name: &str) -> Result<()> {\n        let _short = if name.len() > 32 { &name[..32] } else { name };\n"))
m('ok-cutname', 'ok', C, ("    pub(crate) fn begin_struct_field(&mut self, name: &str) -> Result<()> {\n", "    pub(crate) fn begin_struct_field(&mut self, name: &str) -> Result<()> {\n        let mut k = name.len().min(32);\n        while !name.is_char_boundary(k) { k -= 1; }\n        let _short = &name[..k];\n"))
m('ok-cutname2', 'ok', C, ("    pub(crate) fn begin_struct_field(&mut self, name: &str) -> Result<()> {\n", "    pub(crate) fn begin_struct_field(&mut self, name: &str) -> Result<()> {\n        let _short = if name.len() > 32 && name.is_char_boundary(32) { &name[..32] } else { name };\n        let _ascii = if name.is_ascii() && name.len() > 3 { &name[1..3] } else { name };\n"))
m('c07-cuttext', 'C07', D, ("            Ok(s) => {\n                *buf = s;", "            Ok(s) => {\n                if s.len() > 9 && &s[..4] == \"meta\" { buf.clear(); }\n                *buf = s;"))
