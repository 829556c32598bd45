S='src/'
T=S+'matcher/trie/node/'
A=S+'matcher/suffix_array/'
P=S+'parsers/'
G=S+'grammar/parser/'
M=S+'matcher/'
TM=M+'pattern/testmessage/message.rs'
PS=M+'pattern_source/mod.rs'
# more edits that keep the behaviour; joined to those of refactorings.py
refs2 = [
('base-name','C02 C05',[(P+'base.rs','self.name.as_ref().and_then(|x| Some(x.borrow()))','self.name.as_ref().map(|x| &x[..])')]),
('base-name2','C02',[(P+'base.rs','self.name.as_ref().and_then(|x| Some(x.borrow()))','match self.name { Some(ref name) => Some(name), None => None }')]),
('set-new-name','C05',[(P+'set.rs','''        SetParser {
            base: ParserBase::with_name(name),
            character_set: SetParser::create_set_from_str(set),
            min_length: None,
            max_length: None,
        }''','''        let mut parser = SetParser::new(set);
        parser.base = ParserBase::with_name(name);
        parser''')]),
('set-for-insert','C05',[(P+'set.rs','''        let vset: Vec<char> = set.chars().collect();
        BTreeSet::from_iter(vset)''','''        let mut result = BTreeSet::new();
        for c in set.chars() {
            result.insert(c);
        }
        result''')]),
('set-from-iter','C05',[(P+'set.rs','''        let vset: Vec<char> = set.chars().collect();
        BTreeSet::from_iter(vset)''','''        BTreeSet::from_iter(set.chars())''')]),
('set-if-not','C05',[(P+'set.rs','''            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
                char_count += 1;
            } else {
                break;
            }''','''            if !self.character_set.contains(&c) {
                return (match_len, char_count);
            }
            char_count += 1;
            match_len += c.len_utf8();''')]),
('set-char-indices','C05',[(P+'set.rs','''        let mut match_len = 0;
        let mut char_count = 0;

        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
                char_count += 1;
            } else {
                break;
            }
        }

        (match_len, char_count)''','''        let mut char_count = 0;

        for (pos, c) in value.char_indices() {
            if !self.character_set.contains(&c) {
                return (pos, char_count);
            }
            char_count += 1;
        }

        (value.len(), char_count)''')]),
('set-parse-slice','C05',[(P+'set.rs','''            Some(ParseResult::new(self, &value[..match_len]))''','''            let matched = &value[..match_len];
            Some(ParseResult::new(self, matched))''')]),
('int-const','C05',[(P+'int.rs','''        let delegate = SetParser::with_name(name.into(), "0123456789");
        IntParser { delegate: delegate }''','''        IntParser { delegate: SetParser::with_name(name.into(), DIGITS) }'''),(P+'int.rs','IntParser { delegate: SetParser::new("0123456789") }','IntParser { delegate: SetParser::new(DIGITS) }'),(P+'int.rs','#[derive(Clone, Debug, Hash)]\npub','''const DIGITS: &'static str = "0123456789";

#[derive(Clone, Debug, Hash)]
pub''')]),
('greedy-iflet','C06',[(P+'greedy.rs','value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))','''match value.find(&end_string[..]) {
                Some(pos) => {
                    let (matched, _) = value.split_at(pos);
                    Some(ParseResult::new(self, matched))
                }
                None => None,
            }''')]),
('greedy-fromstr','C06',[(P+'greedy.rs','''        let mut parser = GreedyParser::with_name(name.to_owned());
        let end_string = end_string.to_owned();
        parser.set_end_string(Some(end_string));
        parser''','''        GreedyParser {
            end_string: Some(end_string.to_owned()),
            base: ParserBase::with_name(name.to_owned()),
        }''')]),
('greedy-noslice','C06',[(P+'greedy.rs','Some(ParseResult::new(self, &value[..]))','Some(ParseResult::new(self, value))')]),
('len-and','C05',[(P+'has_length_constraint.rs','''        match_length > 0 && self.is_min_length_ok(match_length) &&
        self.is_max_length_ok(match_length)''','''        let min_ok = self.is_min_length_ok(match_length);
        let max_ok = self.is_max_length_ok(match_length);
        match_length != 0 && min_ok && max_ok''')]),
('len-iflet','C05',[(P+'has_length_constraint.rs','''        match self.max_length() {
            Some(x) => match_length <= x,
            None => true,
        }''','''        if let Some(max) = self.max_length() {
            return !(match_length > max);
        }
        true''')]),
('sv-push-bs','C13',[(S+'utils/sortedvec.rs','''        self.array.push(value);
        self.array.sort();''','''        let index = match self.array.binary_search(&value) {
            Ok(index) => index,
            Err(index) => index,
        };
        self.array.insert(index, value);''')]),
('sv-find-match','C13',[(S+'utils/sortedvec.rs','''        if let Some(index) = self.binary_search(value) {
            self.array.get(index)
        } else {
            None
        }''','''        match self.binary_search(value) {
            Some(index) => Some(&self.array[index]),
            None => None,
        }''')]),
('sv-bs-if','C13',[(S+'utils/sortedvec.rs','''            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => return Some(mid),
            }''','''            let ordering = self.array[mid].cmp(needle);
            if ordering == Ordering::Equal {
                return Some(mid);
            }
            if ordering == Ordering::Less {
                low = mid + 1;
            } else {
                high = mid;
            }''')]),
('sv-bs-neq','C13',[(S+'utils/sortedvec.rs','while low < high {','while low != high {')]),
('cp-idx','C14',[(S+'utils/common_prefix.rs','''        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if''','''        let a = self.as_bytes();
        let b = other.as_bytes();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a[i];
            let y = b[i];

            if''')]),
('cp-minif','C14',[(S+'utils/common_prefix.rs','let min_len = cmp::min(self.len(), other.len());','let min_len = if self.len() < other.len() { self.len() } else { other.len() };')]),
('cp-first','C14',[(S+'utils/common_prefix.rs','let min_len = cmp::min(self.len(), other.len());','let min_len = self.len().min(other.len());')]),
('cp-swap','C14',[(S+'utils/common_prefix.rs','''            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }''','''            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x == y {
                continue;
            }
            return last_valid_character_boundary;''')]),
('trie-lookup-for','C03',[(T+'mod.rs','''        self.parser_children.iter().position(|ref x| x.parser().hash_os() == parser.hash_os())''','''        for (index, child) in self.parser_children.iter().enumerate() {
            if child.parser().hash_os() == parser.hash_os() {
                return Some(index);
            }
        }
        None''')]),
('trie-lookup-hash','C03',[(T+'mod.rs','''        self.parser_children.iter().position(|ref x| x.parser().hash_os() == parser.hash_os())''','''        let hash = parser.hash_os();
        self.parser_children.iter().position(|child| child.parser().hash_os() == hash)''')]),
('trie-leaf','C03',[(T+'mod.rs','self.literal_children.is_empty() && self.parser_children.is_empty()','self.parser_children.len() == 0 && self.literal_children.len() == 0')]),
('trie-lits-match','C03 C04',[(T+'mod.rs','''        if let Ok(pos) = self.literal_children.binary_search_by(&cmp_str) {
            let child = self.literal_children.get(pos).expect("Failed to get a looked up child");
            if let Some(result) = child.parse(text) {
                return Some(result);
            }
        }''','''        let found = match self.literal_children.binary_search_by(&cmp_str) {
            Ok(pos) => self.literal_children.get(pos).and_then(|child| child.parse(text)),
            Err(_) => None,
        };
        if found.is_some() {
            return found;
        }''')]),
('trie-insert-node','C03',[(T+'mod.rs','''                let mut new_node = LiteralNode::new(tail);
                new_node.set_has_value(true);
                self.add_literal_node(new_node);
                self.literal_children.get_mut(pos).unwrap()''','''                let new_node = {
                    let mut node = LiteralNode::new(tail);
                    node.set_has_value(true);
                    node
                };
                self.literal_children.push(new_node);
                self.literal_children.get_mut(pos).expect("Failed to get the new node")''')]),
('trie-insert-let','C03',[(T+'mod.rs','''                let tail = literal.ltrunc(literal.len() - rem_len);
                node.insert_literal_tail(tail)''','''                let done = literal.len() - rem_len;
                node.insert_literal_tail(literal.ltrunc(done))''')]),
('trie-insert-slice','C03',[(T+'mod.rs','''                let tail = literal.ltrunc(literal.len() - rem_len);
                node.insert_literal_tail(tail)''','''                let tail = &literal[literal.len() - rem_len..];
                node.insert_literal_tail(tail)''')]),
('trie-insert-early','C03',[(T+'mod.rs','''        if let Some(token) = pattern.pop_first_token() {
            let mut entry: &mut Entry<ST = Self> = match token {
                TokenType::Literal(literal) => {
                    self.insert_literal(&literal)
                }
                TokenType::Parser(parser) => {
                    self.insert_parser(parser)
                }
            };
            entry.insert(pattern);
        }''','''        match pattern.pop_first_token() {
            Some(TokenType::Literal(literal)) => self.insert_literal(&literal).insert(pattern),
            Some(TokenType::Parser(parser)) => self.insert_parser(parser).insert(pattern),
            None => {}
        }''')]),
('trie-gd-let','C03',[(T+'mod.rs','''                self.literal_children
                    .get_mut(pos)
                    .unwrap()
                    .node_mut()
                    .unwrap()
                    .lookup_literal_mut(truncated_literal)''','''                let child = self.literal_children.get_mut(pos).unwrap();
                let node = child.node_mut().unwrap();
                node.lookup_literal_mut(truncated_literal)''')]),
('split-early','C03',[(T+'literal.rs','''        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }''','''        let pattern = self.pattern.take();
        right_node.set_pattern(pattern);''')]),
('split-order2','C03',[(T+'literal.rs','''        right_node.set_node(self.node.take());
        right_node.set_has_value(self.has_value);
''','''        right_node.set_has_value(self.has_value);
        right_node.node = self.node.take();
''')]),
('split-prefix','C03',[(T+'literal.rs','let common_prefix = literal.rtrunc(literal.len() - common_prefix_len);','let common_prefix = &literal[..common_prefix_len];')]),
('lit-parse-strip','C03 C01',[(T+'literal.rs','''        let text = text.ltrunc(self.literal().len());
''','''        let text = &text[self.literal().len()..];
''')]),
('lit-parse-guard','C03 C01',[(T+'literal.rs','''        match self.pattern() {
            Some(pattern) if text.is_empty() => Some(MatchResult::new(pattern)),
            _ => self.node().and_then(|node| node.parse(text)),
        }''','''        if text.is_empty() {
            if let Some(pattern) = self.pattern() {
                return Some(MatchResult::new(pattern));
            }
        }
        match self.node() {
            Some(node) => node.parse(text),
            None => None,
        }''')]),
('pnode-push','C02',[(T+'parser.rs','''            Some(pattern) if text.is_empty() => {
                let mut result = MatchResult::new(pattern);
                result.insert(kvpair);
                Some(result)
            }
            _ => None,''','''            Some(pattern) => {
                if !text.is_empty() {
                    return None;
                }
                let mut result = MatchResult::new(pattern);
                result.insert(kvpair);
                Some(result)
            }
            None => None,''')]),
('sa-lits-if','C03 C04',[(A+'impls.rs','''            pos -= 1;
            if let Some(result) = self.literal_entries[pos].parse(value) {
                return Some(result);
            }''','''            pos -= 1;
            let result = self.literal_entries[pos].parse(value);
            if result.is_some() {
                return result;
            }''')]),
('sa-lits-get','C03 C04',[(A+'impls.rs','''            if let Some(result) = self.literal_entries[pos].parse(value) {
                return Some(result);
            }''','''            let entry = self.literal_entries.get(pos).expect("Failed to get a literal entry");
            match entry.parse(value) {
                Some(result) => return Some(result),
                None => continue,
            }''')]),
('sa-pos-hash','C03',[(A+'impls.rs','''        let pos = self.parser_entries.iter().position(|x| {
            x.parser.hash_os() == parser.hash_os()
        });
        if let Some(pos) = pos {''','''        let hash = parser.hash_os();
        if let Some(pos) = self.parser_entries.iter().position(|entry| entry.parser.hash_os() == hash) {''')]),
('sa-matcher','C03 C04',[(A+'impls.rs','''        match self.parse_with_literals(value) {
            Some(result) => Some(result),
            None => self.parse_with_parsers(value),
        }''','''        if let Some(result) = self.parse_with_literals(value) {
            return Some(result);
        }
        self.parse_with_parsers(value)''')]),
('sa-pe-match','C02 C03',[(A+'impls.rs','''                self.child().and_then(|child| child.parse(value)).and_then(|mut result| {
                    result.insert(kvpair);
                    Some(result)
                })''','''                match self.child().and_then(|child| child.parse(value)) {
                    Some(mut result) => {
                        result.insert(kvpair);
                        Some(result)
                    }
                    None => None,
                }''')]),
('sa-cmr','C02',[(A+'impls.rs','''        if let Some(pattern) = self.pattern() {
            let mut result = MatchResult::new(pattern);
            result.insert(kvpair);
            Some(result)
        } else {
            debug!("Value parsing ended before reaching a leaf. Please create a new, shorter pattern.");
            None
        }''','''        self.pattern().map(|pattern| {
            let mut result = MatchResult::new(pattern);
            result.insert(kvpair);
            result
        })''')]),
('sa-ins-entry','C03',[(A+'impls.rs','''                let entry = LiteralE::new(literal);
                self.literal_entries.insert(pos, entry);
                self''','''                self.literal_entries.insert(pos, LiteralE::new(literal));
                self''')]),
('sa-lcp','C08',[(A+'impls.rs','''        first_opt.map_or(second_opt, |first| {
            second_opt.map_or(first_opt, |second| {
                if first.literal().common_prefix_len(value) >= second.literal().common_prefix_len(value) {
                    first_opt
                } else {
                    second_opt
                }
            })
        })''','''        match (first_opt, second_opt) {
            (Some(first), Some(second)) => {
                if first.literal().common_prefix_len(value) >= second.literal().common_prefix_len(value) {
                    Some(first)
                } else {
                    Some(second)
                }
            }
            (Some(first), None) => Some(first),
            (None, second) => second,
        }''')]),
('tm-merge','C09',[(TM,'''        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }''','''        for (key, value) in result.values().iter() {
            merged_values.insert(*key, *value);
        }''')]),
('tm-order','C09',[(TM,'''        try!(self.test_tags(result));
        self.test_values(result)''','''        match self.test_tags(result) {
            Ok(()) => self.test_values(result),
            Err(error) => Err(error),
        }''')]),
('tm-values-ret','C09',[(TM,'''            try!(TestMessage::test_value(key, value, &merged_values, result));''','''            if let Err(error) = TestMessage::test_value(key, value, &merged_values, result) {
                return Err(error);
            }''')]),
('tm-tags-helper','C09',[(TM,'''        for i in expected_tags {
            if !got_tags.contains(i) {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())''','''        for tag in expected_tags.iter() {
            let present = got_tags.iter().any(|got| got == tag);
            if !present {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())''')]),
('src-qm','C10',[(PS,'''        for pattern in from {
            try!(Self::check_pattern::<F::Matcher>(&mut matcher, pattern));
        }
        Ok(matcher)''','''        for pattern in from {
            if let Err(error) = Self::check_pattern::<F::Matcher>(&mut matcher, pattern) {
                return Err(error);
            }
        }
        Ok(matcher)''')]),
('src-clone','C10',[(PS,'let uuid = pattern.uuid().to_owned();','let uuid = pattern.uuid().clone();')]),
('src-deref','C10',[(PS,'let uuid = pattern.uuid().to_owned();','let uuid = *pattern.uuid();')]),
('src-iter','C10',[(PS,'for msg in messages {','for msg in messages.iter() {')]),
('src-while-next','C10',[(PS,'''        let mut messages = Vec::new();

        while let Some(test_message) = pattern.pop_test_message() {
            messages.push(test_message);
        }
        messages''','''        let mut messages = vec![];
        let mut next = pattern.pop_test_message();
        while let Some(test_message) = next {
            messages.push(test_message);
            next = pattern.pop_test_message();
        }
        messages''')]),
('ldr-read','C11',[(M+'pattern_loader.rs','''        let mut buffer = String::new();
        let mut file = try!(File::open(pattern_file_path));
        try!(file.read_to_string(&mut buffer));
        Ok(buffer)''','''        let mut file = File::open(pattern_file_path)?;
        let mut content = String::new();
        file.read_to_string(&mut content)?;
        Ok(content)''')]),
('ldr-ret','C11',[(M+'pattern_loader.rs','''                        let file = try!(serde_json::from_str::<PatternFile>(&content));
                        Ok(file)''','''                        Ok(try!(serde_json::from_str::<PatternFile>(&content)))''')]),
('ldr-maperr','C11',[(M+'pattern_loader.rs','''                        let file = try!(serde_json::from_str::<PatternFile>(&content));
                        Ok(file)''','''                        serde_json::from_str::<PatternFile>(&content).map_err(BuildError::from)''')]),
('iter-iflet','C11',[(M+'pattern/file/iter.rs','''        match self.patterns.pop() {
            Some(pattern) => Some(Ok(pattern)),
            None => None,
        }''','''        if let Some(pattern) = self.patterns.pop() {
            return Some(Ok(pattern));
        }
        None''')]),
('pat-pop','C01',[(M+'pattern/pattern.rs','''        if self.pattern.is_empty() {
            None
        } else {
            Some(self.pattern.remove(0))
        }''','''        if self.pattern.len() > 0 {
            let token = self.pattern.remove(0);
            Some(token)
        } else {
            None
        }''')]),
('pat-new','C11 C12',[(M+'pattern/pattern.rs','''        Pattern {
            uuid: uuid,
            name: name,
            pattern: pattern,
            values: values,
            tags: tags,
            test_messages: test_messages,
        }''','''        Pattern {
            name,
            uuid,
            pattern,
            values,
            tags,
            test_messages,
        }''')]),
('fac-greedy','C07',[(M+'trie/parser_factory.rs','''        let mut parser = GreedyParser::new();
        let end_string = end_string.map(|string| string.to_owned());
        parser.set_end_string(end_string);
        let name''','''        let mut parser = GreedyParser::new();
        if let Some(end_string) = end_string {
            parser.set_end_string(Some(end_string.to_owned()));
        }
        let name''')]),
('fac-order','C07',[(M+'trie/parser_factory.rs','''        let mut parser = IntParser::new();
        set_optional_params!(&mut parser, opt_params);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)''','''        let mut parser = match name {
            Some(name) => IntParser::with_name(name),
            None => IntParser::new(),
        };
        set_optional_params!(&mut parser, opt_params);
        Box::new(parser)''')]),
('fac-string','C07',[(M+'trie/parser_factory.rs','''        let mut parser = SetParser::new(set);
        set_optional_params!(&mut parser, opt_params);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);''','''        let mut parser = SetParser::new(set);
        set_optional_params!(&mut parser, opt_params);
        parser.set_name(name.map(str::to_owned));''')]),
('tok-clone','C12',[(M+'compiled_pattern.rs','''            TokenType::Literal(ref literal) => {
                TokenType::Literal(literal.clone())
            }''','''            TokenType::Literal(ref literal) => TokenType::Literal(literal.to_owned()),''')]),
('res-iflet','C02',[(M+'result.rs','''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }''','''        let name = match result.parser().name() {
            Some(name) => name,
            None => return,
        };
        self.values.insert(name, result.value());''')]),
('gr-mod','C07',[(G+'mod.rs','self::pattern_parser::pattern::<TrieParserFactory>(input)','pattern_with_factory::<TrieParserFactory>(input)')]),
]
