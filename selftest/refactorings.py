# Behaviour-preserving edits of /repo used to test that the checks stay quiet.
# (id, [props to run], [(file, old, new), ...])
N = 'src/matcher/trie/node/'
refs = [
('cpl-zip', 'C14 C08', [('src/utils/common_prefix.rs', '''        let min_len = cmp::min(self.len(), other.len());
        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len''', '''        let min_len = cmp::min(self.len(), other.len());
        let mut last_valid_character_boundary = 0;

        for (i, (x, y)) in self.bytes().zip(other.bytes()).enumerate() {
            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len''')]),
('cpl-while', 'C14 C08', [('src/utils/common_prefix.rs', '''        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len''', '''        let ours = self.as_bytes();
        let theirs = other.as_bytes();
        let mut boundary = 0;
        let mut i = 0;

        while i < min_len {
            if self.is_char_boundary(i) {
                boundary = i;
            }
            if ours[i] != theirs[i] {
                return boundary;
            }
            i += 1;
        }
        min_len''')]),
('cpl-chars', 'C14', [('src/utils/common_prefix.rs', '''        let min_len = cmp::min(self.len(), other.len());
        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len''', '''        let mut common = 0;
        let mut theirs = other.chars();
        for c in self.chars() {
            if theirs.next() != Some(c) {
                break;
            }
            common += c.len_utf8();
        }
        common''')]),
('hcp-match', 'C14', [('src/utils/common_prefix.rs', '''        let cpl = self.common_prefix_len(other);

        if cpl > 0 {
            Some(cpl)
        } else {
            None
        }''', '''        match self.common_prefix_len(other) {
            0 => None,
            len => Some(len),
        }''')]),
('rtrunc-split', 'C14 C08', [('src/utils/common_prefix.rs', '''        let new_len = self.len() - len;
        &self[..new_len]''', '''        self.split_at(self.len() - len).0''')]),
('bs-mid', 'C13', [('src/utils/sortedvec.rs', '''            let mid = (low + high) / 2;

            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => return Some(mid),
            }''', '''            let mid = low + (high - low) / 2;
            let probe = &self.array[mid];

            match probe.cmp(needle) {
                Ordering::Equal => return Some(mid),
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
            }''')]),
('bs-std', 'C13', [('src/utils/sortedvec.rs', '''        let mut low = 0;
        let mut high = self.array.len();

        while low < high {
            let mid = (low + high) / 2;

            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => return Some(mid),
            }
        }

        None''', '''        self.array.binary_search(needle).ok()''')]),
('find-and-then', 'C13', [('src/utils/sortedvec.rs', '''        if let Some(index) = self.binary_search(value) {
            self.array.get(index)
        } else {
            None
        }''', '''        self.find_pos(value).and_then(|index| self.get(index))''')]),
('push-insert', 'C13', [('src/utils/sortedvec.rs', '''        self.array.push(value);
        self.array.sort();''', '''        let pos = self.array.iter().position(|x| *x > value).unwrap_or(self.array.len());
        self.array.insert(pos, value);''')]),
('set-take-while', 'C05', [('src/parsers/set.rs', '''        let mut match_len = 0;
        let mut char_count = 0;

        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
                char_count += 1;
            } else {
                break;
            }
        }

        (match_len, char_count)''', '''        value.chars()
             .take_while(|c| self.character_set.contains(c))
             .fold((0, 0), |(len, count), c| (len + c.len_utf8(), count + 1))''')]),
('set-helper', 'C05 C08', [('src/parsers/set.rs', '''            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
                char_count += 1;
            } else {
                break;
            }
        }

        (match_len, char_count)
    }''', '''            if !self.is_member(c) {
                break;
            }
            char_count += 1;
            match_len += c.len_utf8();
        }

        (match_len, char_count)
    }

    fn is_member(&self, c: char) -> bool {
        self.character_set.contains(&c)
    }'''), ('src/parsers/set.rs', '''        if self.is_match_length_ok(char_count) {
            Some(ParseResult::new(self, &value[..match_len]))
        } else {
            None
        }''', '''        if !self.is_match_length_ok(char_count) {
            return None;
        }
        let matched = &value[..match_len];
        Some(ParseResult::new(self, matched))''')]),
('set-while-let', 'C05', [('src/parsers/set.rs', '''        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
                char_count += 1;
            } else {
                break;
            }
        }
''', '''        let mut chars = value.chars();
        while let Some(c) = chars.next() {
            if !self.character_set.contains(&c) {
                break;
            }
            match_len += c.len_utf8();
            char_count += 1;
        }
''')]),
('set-collect', 'C05 C07', [('src/parsers/set.rs', '''        let vset: Vec<char> = set.chars().collect();
        BTreeSet::from_iter(vset)''', '''        set.chars().collect()''')]),
('len-map-or', 'C05 C07', [('src/parsers/has_length_constraint.rs', '''        match self.min_length() {
            Some(x) => match_length >= x,
            None => true,
        }''', '''        self.min_length().map_or(true, |min| min <= match_length)'''), ('src/parsers/has_length_constraint.rs', '''        match_length > 0 && self.is_min_length_ok(match_length) &&
        self.is_max_length_ok(match_length)''', '''        if match_length == 0 {
            return false;
        }
        self.is_min_length_ok(match_length) && self.is_max_length_ok(match_length)''')]),
('greedy-match', 'C06 C01', [('src/parsers/greedy.rs', '''        if let Some(end_string) = self.end_string.as_ref() {
            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))
        } else {
            Some(ParseResult::new(self, &value[..]))
        }''', '''        let end = match self.end_string {
            Some(ref end_string) => value.find(&end_string[..]),
            None => Some(value.len()),
        };
        end.map(|pos| ParseResult::new(self, &value[..pos]))''')]),
('trie-or-else', 'C01 C04 C08', [(N+'mod.rs', '''        match self.parse_with_literals(text) {
            Some(result) => Some(result),
            None => {
                trace!("parse(): #parser_children = {}", self.parser_children.len());
                self.parse_with_parsers(text)
            }
        }''', '''        self.parse_with_literals(text).or_else(|| self.parse_with_parsers(text))''')]),
('trie-find-map', 'C03 C04', [(N+'mod.rs', '''        for i in &self.parser_children {
            trace!("parse(): testing parser");

            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        None
    }

    pub fn parse_then''', '''        self.parser_children.iter().filter_map(|child| child.parse(text)).next()
    }

    pub fn parse_then''')]),
('trie-index-loop', 'C03 C04', [(N+'mod.rs', '''        for i in &self.parser_children {
            trace!("parse(): testing parser");

            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        None
    }

    pub fn parse_then''', '''        let mut index = 0;
        while index < self.parser_children.len() {
            let result = self.parser_children[index].parse(text);
            if result.is_some() {
                return result;
            }
            index += 1;
        }
        None
    }

    pub fn parse_then''')]),
('trie-child-helper', 'C01 C03 C04', [(N+'mod.rs', '''        let cmp_str = |probe: &LiteralNode| probe.cmp_str(text);
        if let Ok(pos) = self.literal_children.binary_search_by(&cmp_str) {
            let child = self.literal_children.get(pos).expect("Failed to get a looked up child");
            if let Some(result) = child.parse(text) {
                return Some(result);
            }
        }''', '''        if let Some(child) = self.literal_child_for(text) {
            let result = child.parse(text);
            if result.is_some() {
                return result;
            }
        }'''), (N+'mod.rs', '''    fn parse_with_parsers<''', '''    fn literal_child_for(&self, text: &str) -> Option<&LiteralNode> {
        let cmp_str = |probe: &LiteralNode| probe.cmp_str(text);
        match self.literal_children.binary_search_by(&cmp_str) {
            Ok(pos) => self.literal_children.get(pos),
            Err(_) => None,
        }
    }

    fn parse_with_parsers<''')]),
('trie-insert-match', 'C01 C03 C04', [(N+'mod.rs', '''        if let Some(item) = self.lookup_parser(&*parser) {
            self.parser_children.get_mut(item).unwrap()
        } else {
            let pnode = ParserNode::new(parser);
            self.parser_children.push(pnode);
            self.parser_children.last_mut().unwrap()
        }''', '''        match self.lookup_parser(&*parser) {
            Some(index) => &mut self.parser_children[index],
            None => {
                self.parser_children.push(ParserNode::new(parser));
                self.parser_children.last_mut().unwrap()
            }
        }''')]),
('trie-insert-pos', 'C01 C03 C04', [(N+'mod.rs', '''        if let Some(item) = self.lookup_parser(&*parser) {
            self.parser_children.get_mut(item).unwrap()
        } else {
            let pnode = ParserNode::new(parser);
            self.parser_children.push(pnode);
            self.parser_children.last_mut().unwrap()
        }''', '''        let pos = match self.lookup_parser(&*parser) {
            Some(pos) => pos,
            None => {
                self.parser_children.push(ParserNode::new(parser));
                self.parser_children.len() - 1
            }
        };
        self.parser_children.get_mut(pos).unwrap()''')]),
('trie-tail-helper', 'C01 C03 C08', [(N+'mod.rs', '''                let mut new_node = LiteralNode::new(tail);
                new_node.set_has_value(true);
                self.add_literal_node(new_node);
                self.literal_children.get_mut(pos).unwrap()''', '''                self.add_new_literal(tail);
                self.literal_children.get_mut(pos).unwrap()'''), (N+'mod.rs', '''    fn lookup_freshly_inserted_literal(''', '''    fn add_new_literal(&mut self, literal: &str) {
        let mut new_node = LiteralNode::new(literal);
        new_node.set_has_value(true);
        self.add_literal_node(new_node);
    }

    fn lookup_freshly_inserted_literal(''')]),
('trie-search-order', 'C03 C08', [(N+'mod.rs', '''        if let Some(_) = literal_node.node() {
            trace!("search(): literal len = {}", literal.len());
            trace!("search(): common_prefix_len = {}", common_prefix_len);
            trace!("search(): going deeper");
            return LiteralLookupResult::GoDown(pos, literal.ltrunc(common_prefix_len));
        } else {
            unreachable!();
        }''', '''        match literal_node.node() {
            Some(_) => LiteralLookupResult::GoDown(pos, literal.ltrunc(common_prefix_len)),
            None => unreachable!(),
        }''')]),
('trie-search-inline', 'C03 C08', [(N+'mod.rs', '''        if self.literal_children.get(pos).unwrap().is_leaf() {
            self.search_prefix_is_found_and_node_is_leaf(literal, pos)
        } else {
            self.search_prefix_is_found_and_node_is_not_leaf(literal, pos)
        }''', '''        let node = self.literal_children.get(pos).unwrap();
        if !node.is_leaf() {
            return self.search_prefix_is_found_and_node_is_not_leaf(literal, pos);
        }
        if node.literal() == literal {
            LiteralLookupResult::Found(pos)
        } else {
            LiteralLookupResult::NotFound
        }'''), (N+'mod.rs', '''    fn search_prefix_is_found_and_node_is_leaf<'a, 'b>(&'a self,
                                                       literal: &'b str,
                                                       pos: usize)
                                                       -> LiteralLookupResult<'b> {
        trace!("search(): we found a prefix, but it's a leaf");
        if self.literal_children.get(pos).unwrap().literal() == literal {
            trace!("search(): we got it");
            LiteralLookupResult::Found(pos)
        } else {
            trace!("search(): we didn't get it");
            LiteralLookupResult::NotFound
        }
    }

''', '')]),
('trie-split-reorder', 'C01 C03 C08', [(N+'literal.rs', '''        let mut new_node = SuffixTree::new();

        let mut left_node = {
            let left_branch = literal.ltrunc(common_prefix_len);
            trace!("split(): left_branch = {}", left_branch);
            LiteralNode::new(left_branch)
        };
        let mut right_node = {
            let right_branch = self.literal().ltrunc(common_prefix_len);
            trace!("split(): right_branch = {}", right_branch);
            LiteralNode::new(right_branch)
        };
        left_node.set_has_value(true);

        right_node.set_node(self.node.take());
        right_node.set_has_value(self.has_value);

        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }

        new_node.add_literal_node(left_node);
        new_node.add_literal_node(right_node);
        self.set_node(Some(new_node));
        self.has_value = false;
        self.literal = common_prefix.to_owned();''', '''
        let mut right_node = LiteralNode::new(self.literal().ltrunc(common_prefix_len));
        right_node.set_has_value(self.has_value);
        right_node.set_pattern(self.pattern.take());
        right_node.set_node(self.node.take());

        let mut left_node = LiteralNode::new(literal.ltrunc(common_prefix_len));
        left_node.set_has_value(true);

        let mut new_node = SuffixTree::new();
        new_node.add_literal_node(left_node);
        new_node.add_literal_node(right_node);

        self.has_value = false;
        self.literal = common_prefix.to_owned();
        self.set_node(Some(new_node));''')]),
('trie-split-replace', 'C01 C03 C08', [(N+'literal.rs', '''        let mut right_node = {
            let right_branch = self.literal().ltrunc(common_prefix_len);
            trace!("split(): right_branch = {}", right_branch);
            LiteralNode::new(right_branch)
        };
        left_node.set_has_value(true);

        right_node.set_node(self.node.take());
        right_node.set_has_value(self.has_value);

        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }
''', '''        let right_node = LiteralNode {
            literal: self.literal().ltrunc(common_prefix_len).to_owned(),
            has_value: self.has_value,
            pattern: self.pattern.take(),
            node: self.node.take(),
        };
        left_node.set_has_value(true);
''')]),
('lit-cmp-match', 'C03 C08', [(N+'literal.rs', '''        if self.literal.is_empty() && other.is_empty() {
            Ordering::Equal
        } else if self.literal.is_empty() {
            Ordering::Less
        } else if other.is_empty() {
            Ordering::Greater
        } else {
            self.literal.chars().next().cmp(&other.chars().next())
        }''', '''        match (self.literal.is_empty(), other.is_empty()) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => self.literal.chars().next().cmp(&other.chars().next()),
        }''')]),
('lit-parse-if', 'C01 C03', [(N+'literal.rs', '''        if !text.starts_with(self.literal()) {
            return None;
        }
        let text = text.ltrunc(self.literal().len());

        match self.pattern() {
            Some(pattern) if text.is_empty() => Some(MatchResult::new(pattern)),
            _ => self.node().and_then(|node| node.parse(text)),
        }''', '''        if text.starts_with(self.literal()) {
            let rest = text.ltrunc(self.literal().len());
            if rest.is_empty() {
                if let Some(pattern) = self.pattern() {
                    return Some(MatchResult::new(pattern));
                }
            }
            if let Some(node) = self.node() {
                return node.parse(rest);
            }
        }
        None''')]),
('pnode-delegate', 'C01 C02', [(N+'parser.rs', '''    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
        if let Some(parsed_kwpair) = self.parser.parse(value) {
            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
            let text = value.ltrunc(parsed_kwpair.value().len());

            return match self.node() {
                Some(node) if !text.is_empty() || self.pattern().is_none() => {
                    node.parse_then_push_kvpair(text, parsed_kwpair)
                }
                _ => {
                    self.push_last_kvpair(text, parsed_kwpair)
                }
            };
        }
        None
    }''', '''    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
        ParserNode::parse(self, value)
    }''')]),
('pnode-match', 'C01 C02 C03', [(N+'parser.rs', '''    pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
        if let Some(parsed_kwpair) = self.parser.parse(text) {
            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
            let text = text.ltrunc(parsed_kwpair.value().len());

            return match self.node() {
                Some(node) if !text.is_empty() || self.pattern().is_none() => {
                    node.parse_then_push_kvpair(text, parsed_kwpair)
                }
                _ => {
                    self.push_last_kvpair(text, parsed_kwpair)
                }
            };
        }
        None
    }''', '''    pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
        let kvpair = match self.parser.parse(text) {
            Some(kvpair) => kvpair,
            None => return None,
        };
        let rest = text.ltrunc(kvpair.value().len());
        if rest.is_empty() && self.pattern().is_some() {
            return self.push_last_kvpair(rest, kvpair);
        }
        match self.node() {
            Some(node) => node.parse_then_push_kvpair(rest, kvpair),
            None => None,
        }
    }''')]),
('kvpair-map', 'C02', [(N+'mod.rs', '''        if let Some(mut result) = self.parse(text) {
            result.insert(kvpair);
            Some(result)
        } else {
            None
        }''', '''        self.parse(text).map(|mut result| {
            result.insert(kvpair);
            result
        })''')]),
('result-match', 'C02', [('src/matcher/result.rs', '''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }''', '''        let value = result.value();
        match result.parser().name() {
            Some(name) => { self.values.insert(name, value); }
            None => {}
        }''')]),
('sa-rev', 'C01 C03 C04', [('src/matcher/suffix_array/impls.rs', '''        let mut pos = match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
            Ok(pos) => pos + 1,
            Err(pos) => pos,
        };
        while pos > 0 {
            pos -= 1;
            if let Some(result) = self.literal_entries[pos].parse(value) {
                return Some(result);
            }
        }
        None''', '''        let end = match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
            Ok(pos) => pos + 1,
            Err(pos) => pos,
        };
        for entry in self.literal_entries[..end].iter().rev() {
            if let Some(result) = entry.parse(value) {
                return Some(result);
            }
        }
        None''')]),
('sa-loop', 'C01 C03 C04 C08', [('src/matcher/suffix_array/impls.rs', '''        let mut pos = match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
            Ok(pos) => pos + 1,
            Err(pos) => pos,
        };
        while pos > 0 {
            pos -= 1;
            if let Some(result) = self.literal_entries[pos].parse(value) {
                return Some(result);
            }
        }
        None''', '''        let found = self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value));
        let mut remaining = match found {
            Ok(pos) => pos + 1,
            Err(pos) => pos,
        };
        while remaining != 0 {
            let entry = &self.literal_entries[remaining - 1];
            let result = entry.parse(value);
            if result.is_some() {
                return result;
            }
            remaining -= 1;
        }
        None''')]),
('sa-insert-pos', 'C01 C03 C04 C08', [('src/matcher/suffix_array/impls.rs', '''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
        match result {
            Ok(pos) => {
                self.literal_entries.get_mut(pos).expect("Literal entry found, but failed to remove")
            },
            Err(pos) => {
                let entry = LiteralE::new(literal);
                self.literal_entries.insert(pos, entry);
                self.literal_entries.get_mut(pos).expect("Literal entry inserted, but failed to remove")
            }
        }''', '''        let pos = match self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal)) {
            Ok(pos) => pos,
            Err(pos) => {
                self.literal_entries.insert(pos, LiteralE::new(literal));
                pos
            }
        };
        &mut self.literal_entries[pos]''')]),
('sa-parser-iflet', 'C01 C02 C03', [('src/matcher/suffix_array/impls.rs', '''        self.parser.parse(value).and_then(|kvpair| {
            let value = value.ltrunc(kvpair.value().len());

            if value.is_empty() && self.pattern().is_some() {
                self.create_match_result(kvpair)
            } else {
                self.child().and_then(|child| child.parse(value)).and_then(|mut result| {
                    result.insert(kvpair);
                    Some(result)
                })
            }
        })''', '''        let kvpair = match self.parser.parse(value) {
            Some(kvpair) => kvpair,
            None => return None,
        };
        let rest = value.ltrunc(kvpair.value().len());
        if rest.is_empty() && self.pattern().is_some() {
            return self.create_match_result(kvpair);
        }
        if let Some(child) = self.child() {
            if let Some(mut result) = child.parse(rest) {
                result.insert(kvpair);
                return Some(result);
            }
        }
        None''')]),
('sa-entry-insert', 'C01 C03 C08', [('src/matcher/suffix_array/interface.rs', '''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));
        } else {
            if self.child().is_none() {
                let sa = Self::SA::new();
                self.set_child(Some(sa));
            }
            self.child_mut().expect("Failed to get a child").insert(pattern);
        }''', '''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));
            return;
        }
        if self.child().is_none() {
            self.set_child(Some(Self::SA::new()));
        }
        match self.child_mut() {
            Some(child) => child.insert(pattern),
            None => unreachable!(),
        }''')]),
('tm-match', 'C09', [('src/matcher/pattern/testmessage/message.rs', '''        if let Some(expected_tags) = self.tags() {
            if let Some(got_tags) = result.pattern().tags() {
                try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
                                                                      got_tags,
                                                                      result));
            } else {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())''', '''        match (self.tags(), result.pattern().tags()) {
            (None, _) => Ok(()),
            (Some(_), None) => Err(self.report_unexpected_tags_error(result)),
            (Some(expected), Some(got)) => {
                self.test_expected_tags_can_be_found_in_got_tags(expected, got, result)
            }
        }''')]),
('tm-all', 'C09', [('src/matcher/pattern/testmessage/message.rs', '''        for i in expected_tags {
            if !got_tags.contains(i) {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())''', '''        if expected_tags.iter().all(|tag| got_tags.contains(tag)) {
            Ok(())
        } else {
            Err(self.report_unexpected_tags_error(result))
        }''')]),
('tm-value-match', 'C09', [('src/matcher/pattern/testmessage/message.rs', '''        if let Some(got_value) = values.get(key) {
            let got_value: &str = got_value;
            if value == got_value {
                Ok(())
            } else {
                Err(Error::value_not_match(result.pattern().uuid(), key, value, got_value))
            }
        } else {
            Err(Error::key_not_found(result.pattern().uuid(), key))
        }''', '''        let uuid = result.pattern().uuid();
        match values.get(key) {
            None => Err(Error::key_not_found(uuid, key)),
            Some(got_value) if *got_value == value => Ok(()),
            Some(got_value) => Err(Error::value_not_match(uuid, key, value, got_value)),
        }''')]),
('tm-lookup', 'C09', [('src/matcher/pattern/testmessage/message.rs', '''        let merged_values = TestMessage::merge_values(result);

        for (key, value) in self.values() {
            try!(TestMessage::test_value(key, value, &merged_values, result));
        }
        Ok(())''', '''        let merged_values = TestMessage::merge_values(result);
        for (key, value) in self.values().iter() {
            let outcome = TestMessage::test_value(key, value, &merged_values, result);
            if outcome.is_err() {
                return outcome;
            }
        }
        Ok(())''')]),
('src-while', 'C10', [('src/matcher/pattern_source/mod.rs', '''        for pattern in from {
            try!(Self::check_pattern::<F::Matcher>(&mut matcher, pattern));
        }
        Ok(matcher)''', '''        while let Some(pattern) = from.next() {
            if let Err(error) = Self::check_pattern::<F::Matcher>(&mut matcher, pattern) {
                return Err(error);
            }
        }
        Ok(matcher)''')]),
('src-match', 'C10', [('src/matcher/pattern_source/mod.rs', '''            let result = try!(matcher.parse(msg.message())
                                     .ok_or(testmessage::Error::test_message_does_not_match(uuid,
                                                                                            msg)));
            try!(Self::check_test_message(msg, &result, uuid));''', '''            match matcher.parse(msg.message()) {
                Some(result) => try!(Self::check_test_message(msg, &result, uuid)),
                None => {
                    let error = testmessage::Error::test_message_does_not_match(uuid, msg);
                    return Err(BuildError::from(error));
                }
            }''')]),
('src-helper', 'C10', [('src/matcher/pattern_source/mod.rs', '''        if result.pattern().uuid() == expected_uuid {
            message.test_result(result)
        } else {
            Err(testmessage::Error::matched_to_other_pattern(expected_uuid,
                result.pattern().uuid(),
                message.message()))
        }''', '''        let got_uuid = result.pattern().uuid();
        if got_uuid != expected_uuid {
            return Err(testmessage::Error::matched_to_other_pattern(expected_uuid,
                                                                    got_uuid,
                                                                    message.message()));
        }
        message.test_result(result)''')]),
('src-pop', 'C10', [('src/matcher/pattern_source/mod.rs', '''        let mut messages = Vec::new();

        while let Some(test_message) = pattern.pop_test_message() {
            messages.push(test_message);
        }
        messages''', '''        let mut messages = Vec::new();
        loop {
            match pattern.pop_test_message() {
                Some(test_message) => messages.push(test_message),
                None => break,
            }
        }
        messages''')]),
('loader-helper', 'C11', [('src/matcher/pattern_loader.rs', '''                    "json" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_json::from_str::<PatternFile>(&content));
                        Ok(file)
                    },
                    "yaml" | "yml" | "YAML" | "YML" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_yaml::from_str::<PatternFile>(&content));
                        Ok(file)
                    },''', '''                    "json" => PatternLoader::load_json(pattern_file_path),
                    "yaml" | "yml" | "YAML" | "YML" => PatternLoader::load_yaml(pattern_file_path),'''), ('src/matcher/pattern_loader.rs', '''    pub fn load_file(''', '''    fn load_json(pattern_file_path: &str) -> Result<PatternFile, BuildError> {
        let content = try!(PatternLoader::read(pattern_file_path));
        let file = try!(serde_json::from_str::<PatternFile>(&content));
        Ok(file)
    }

    fn load_yaml(pattern_file_path: &str) -> Result<PatternFile, BuildError> {
        let content = try!(PatternLoader::read(pattern_file_path));
        let file = try!(serde_yaml::from_str::<PatternFile>(&content));
        Ok(file)
    }

    pub fn load_file(''')]),
('loader-early', 'C11', [('src/matcher/pattern_loader.rs', '''        match path.extension() {
            Some(extension) => {
                match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {
                    "json" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_json::from_str::<PatternFile>(&content));
                        Ok(file)
                    },
                    "yaml" | "yml" | "YAML" | "YML" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_yaml::from_str::<PatternFile>(&content));
                        Ok(file)
                    },
                    _ => Err(BuildError::UnsupportedFileExtension),
                }
            }
            None => Err(BuildError::UnsupportedFileExtension),
        }''', '''        let extension = match path.extension() {
            Some(extension) => extension,
            None => return Err(BuildError::UnsupportedFileExtension),
        };
        let extension = try!(extension.to_str().ok_or(BuildError::NotUtf8FileName));
        match extension {
            "json" => {
                let content = try!(PatternLoader::read(pattern_file_path));
                let file = try!(serde_json::from_str::<PatternFile>(&content));
                Ok(file)
            },
            "yaml" | "yml" | "YAML" | "YML" => {
                let content = try!(PatternLoader::read(pattern_file_path));
                let file = try!(serde_yaml::from_str::<PatternFile>(&content));
                Ok(file)
            },
            _ => Err(BuildError::UnsupportedFileExtension),
        }''')]),
('iter-map', 'C11', [('src/matcher/pattern/file/iter.rs', '''        match self.patterns.pop() {
            Some(pattern) => Some(Ok(pattern)),
            None => None,
        }''', '''        self.patterns.pop().map(|pattern| Ok(pattern))''')]),
('deser-early', 'C11', [('src/matcher/pattern/file/deser.rs', '''        let patterns_final = match patterns {
            Some(patterns) => patterns,
            None => try!(visitor.missing_field("patterns")),
        };

        try!(visitor.end());

        Ok(PatternFile { patterns: patterns_final })''', '''        let patterns = match patterns {
            Some(patterns) => patterns,
            None => try!(visitor.missing_field("patterns")),
        };
        try!(visitor.end());
        let file = PatternFile { patterns: patterns };
        Ok(file)''')]),
('deser-msg', 'C11', [('src/matcher/pattern/testmessage/deser.rs', '''        let message_final = match message {
            Some(message) => message,
            None => try!(visitor.missing_field("message")),
        };

        let values = values.unwrap_or_default();
''', '''        let message_final = if let Some(message) = message {
            message
        } else {
            try!(visitor.missing_field("message"))
        };

        let values = match values {
            Some(values) => values,
            None => Default::default(),
        };
''')]),
('flatten-extend', 'C07', [('src/utils/mod.rs', '''        for i in vector.into_iter() {
            flattened_vec.push(i);
        }''', '''        flattened_vec.extend(vector);''')]),
('flatten-append', 'C07', [('src/utils/mod.rs', '''    for vector in vectors.into_iter() {
        for i in vector.into_iter() {
            flattened_vec.push(i);
        }
    }''', '''    for mut vector in vectors {
        flattened_vec.append(&mut vector);
    }''')]),
('factory-fn', 'C07', [('src/matcher/trie/parser_factory.rs', '''macro_rules! set_optinal_param {
    ($parser:expr, $param:expr) => {
        match $param {
            OptionalParameter::Int(key, value) => {
                match key {
                    "min_len" => {
                        $parser.set_min_length(Some(value));
                    },
                    "max_len" => {
                        $parser.set_max_length(Some(value));
                    },
                    _ => ()
                }
            }
        }
    }
}

macro_rules! set_optional_params {
    ($parser:expr, $opt_params:expr) => {
        if let Some(opt_params) = $opt_params {
            for i in opt_params.into_iter() {
                set_optinal_param!($parser, i);
            }
        }
    }
}
''', '''fn apply_params<P: HasLengthConstraint>(parser: &mut P, opt_params: Option<Vec<OptionalParameter>>) {
    if let Some(opt_params) = opt_params {
        for param in opt_params.into_iter() {
            match param {
                OptionalParameter::Int(key, value) => {
                    if key == "min_len" {
                        parser.set_min_length(Some(value));
                    } else if key == "max_len" {
                        parser.set_max_length(Some(value));
                    }
                }
            }
        }
    }
}
'''), ('src/matcher/trie/parser_factory.rs', '''        let mut parser = SetParser::new(set);
        set_optional_params!(&mut parser, opt_params);''', '''        let mut parser = SetParser::new(set);
        apply_params(&mut parser, opt_params);'''), ('src/matcher/trie/parser_factory.rs', '''        let mut parser = IntParser::new();
        set_optional_params!(&mut parser, opt_params);''', '''        let mut parser = IntParser::new();
        apply_params(&mut parser, opt_params);''')]),
('grammar-match-collapse', 'C07 C08', [('src/grammar/parser/pattern_parser.rs', '''    {
        let choice_res = parse_parser_GREEDY::<F>(input, state, pos);
        match choice_res {
            Matched(pos, value) => Matched(pos, value),
            Failed => {
                let choice_res = parse_piece_literal::<F>(input, state, pos);
                match choice_res {
                    Matched(pos, value) => Matched(pos, value),
                    Failed => parse_piece_parser::<F>(input, state, pos),
                }
            }
        }
    }''', '''    if let Matched(newpos, value) = parse_parser_GREEDY::<F>(input, state, pos) {
        return Matched(newpos, value);
    }
    if let Matched(newpos, value) = parse_piece_literal::<F>(input, state, pos) {
        return Matched(newpos, value);
    }
    parse_piece_parser::<F>(input, state, pos)''')]),
('grammar-repeat', 'C07 C08', [('src/grammar/parser/pattern_parser.rs', '''    {
        let start_pos = pos;
        {
            let seq_res = {
                let mut repeat_pos = pos;
                let mut repeat_value = vec![];
                loop {
                    let pos = repeat_pos;
                    let step_res = parse_pattern_piece::<F>(input, state, pos);
                    match step_res {
                        Matched(newpos, value) => {
                            repeat_pos = newpos;
                            repeat_value.push(value);
                        }
                        Failed => {
                            break;
                        }
                    }
                }
                if repeat_value.len() >= 1usize {
                    Matched(repeat_pos, repeat_value)
                } else {
                    Failed
                }
            };
            match seq_res {
                Matched(pos, pieces) => {
                    {
                        let match_str = &input[start_pos..pos];
                        Matched(pos, {
                            let mut pieces = pieces;
                            utils::flatten_vec(pieces)
                        })
                    }
                }
                Failed => Failed,
            }
        }
    }''', '''    let mut pos = pos;
    let mut pieces = vec![];
    while let Matched(newpos, piece) = parse_pattern_piece::<F>(input, state, pos) {
        pos = newpos;
        pieces.push(piece);
    }
    if pieces.is_empty() {
        Failed
    } else {
        Matched(pos, utils::flatten_vec(pieces))
    }''')]),
('grammar-slice-eq', 'C07 C08', [('src/grammar/parser/pattern_parser.rs', '''    let l = m.len();
    if input.len() >= pos + l && &input.as_bytes()[pos..pos + l] == m.as_bytes() {
        Matched(pos + l, ())
    } else {
        state.mark_failure(pos, m)
    }''', '''    let end = pos + m.len();
    if end > input.len() || &input.as_bytes()[pos..end] != m.as_bytes() {
        return state.mark_failure(pos, m);
    }
    Matched(end, ())''')]),
('grammar-mark', 'C07 C08', [('src/grammar/parser/pattern_parser.rs', '''        if pos > self.max_err_pos {
            self.max_err_pos = pos;
            self.expected.clear();
        }
        if pos == self.max_err_pos {
            self.expected.insert(expected);
        }
        Failed''', '''        if pos < self.max_err_pos {
            return Failed;
        }
        if pos > self.max_err_pos {
            self.expected.clear();
            self.max_err_pos = pos;
        }
        self.expected.insert(expected);
        Failed''')]),
('pattern-pop', 'C01 C03 C10', [('src/matcher/pattern/pattern.rs', '''        if self.pattern.is_empty() {
            None
        } else {
            Some(self.pattern.remove(0))
        }''', '''        if !self.pattern.is_empty() {
            return Some(self.pattern.remove(0));
        }
        None'''), ('src/matcher/pattern/pattern.rs', '''        self.test_messages.as_mut().map_or(None, |x| x.pop())''', '''        match self.test_messages {
            Some(ref mut messages) => messages.pop(),
            None => None,
        }''')]),
('clone-let', 'C12', [(N+'parser.rs', '''        ParserNode {
            parser: self.parser.boxed_clone(),
            pattern: self.pattern.clone(),
            node: self.node.clone(),
        }''', '''        let mut copy = ParserNode::new(self.parser.boxed_clone());
        copy.node = self.node.clone();
        copy.pattern = self.pattern.clone();
        copy''')]),
('hash-helper', 'C03 C12 C05', [('src/parsers/set.rs', '''        let mut hasher = SipHasher::new();
        "parser:set".hash(&mut hasher);
        self.hash(&mut hasher);
        hasher.finish()''', '''        let mut state = SipHasher::new();
        let tag = "parser:set";
        tag.hash(&mut state);
        self.hash(&mut state);
        state.finish()''')]),
]

from refs2 import refs2
from refs3 import refs3
refs = refs + refs2 + refs3

def units_of(edits):
    u = set()
    for f, _, _ in edits:
        if 'utils/' in f: u |= {'utils'}
        if 'utils/mod' in f: u |= {'parsers'}
        if 'parsers/' in f: u |= {'parsers'}
        if '/trie/node' in f or 'trie/matcher' in f: u |= {'trie', 'clone_trie'}
        if 'parser_factory' in f or 'grammar' in f: u |= {'grammar'}
        if 'suffix_array' in f: u |= {'sa', 'clone_sa'}
        if 'result.rs' in f or 'compiled_pattern' in f: u |= {'trie', 'clone_trie'}
        if 'testmessage/message' in f or 'testmessage/error' in f or 'pattern_source' in f: u |= {'source'}
        if 'deser' in f or 'loader' in f or '/file/' in f: u |= {'loader'}
        if 'pattern/pattern.rs' in f: u |= {'trie', 'source'}
    return sorted(u)
