# more behaviour-preserving edits
S='src/'; N=S+'matcher/trie/node/'; A=S+'matcher/suffix_array/'; P=S+'parsers/'; M=S+'matcher/'
TM=M+'pattern/testmessage/message.rs'; PS=M+'pattern_source/mod.rs'; PL=M+'pattern_loader.rs'; D=M+'pattern/deser.rs'; G=S+'grammar/'
SETL='''        let mut match_len = 0;
        let mut char_count = 0;

        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
                char_count += 1;
            } else {
                break;
            }
        }

        (match_len, char_count)'''
refs3=[
('set-fold','C05',[(P+'set.rs',SETL,'''        value.chars()
             .take_while(|c| self.character_set.contains(c))
             .fold((0, 0), |(len, count), c| (len + c.len_utf8(), count + 1))''')]),
('set-member','C05',[(P+'set.rs',SETL,'''        let mut match_len = 0;
        let mut char_count = 0;

        for c in value.chars() {
            if !self.accepts(c) {
                break;
            }
            char_count += 1;
            match_len += c.len_utf8();
        }

        (match_len, char_count)'''),(P+'set.rs','''    // Returns the length of the match both''','''    fn accepts(&self, c: char) -> bool {
        self.character_set.contains(&c)
    }

    // Returns the length of the match both''')]),
('set-tuple','C05',[(P+'set.rs',SETL,'''        let mut lengths = (0, 0);

        for c in value.chars() {
            if self.character_set.contains(&c) {
                lengths.0 += c.len_utf8();
                lengths.1 += 1;
            } else {
                return lengths;
            }
        }

        lengths''')]),
('set-early','C05',[(P+'set.rs','''        if self.is_match_length_ok(char_count) {
            Some(ParseResult::new(self, &value[..match_len]))
        } else {
            None
        }''','''        if !self.is_match_length_ok(char_count) {
            return None;
        }

        let matched = &value[..match_len];
        Some(ParseResult::new(self, matched))''')]),
('len-early','C05',[(P+'has_length_constraint.rs','''        match_length > 0 && self.is_min_length_ok(match_length) &&
        self.is_max_length_ok(match_length)''','''        if match_length == 0 {
            return false;
        }
        self.is_max_length_ok(match_length) && self.is_min_length_ok(match_length)''')]),
('greedy-find','C06',[(P+'greedy.rs','''        if let Some(end_string) = self.end_string.as_ref() {
            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))
        } else {
            Some(ParseResult::new(self, &value[..]))
        }''','''        let end = match self.end_string {
            Some(ref end_string) => {
                match value.find(&end_string[..]) {
                    Some(pos) => pos,
                    None => return None,
                }
            }
            None => value.len(),
        };
        Some(ParseResult::new(self, &value[..end]))''')]),
('greedy-helper','C06',[(P+'greedy.rs','''        if let Some(end_string) = self.end_string.as_ref() {
            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))
        } else {
            Some(ParseResult::new(self, &value[..]))
        }''','''        self.match_length(value).map(|length| ParseResult::new(self, &value[..length]))'''),(P+'greedy.rs','''    pub fn new() -> GreedyParser {''','''    fn match_length(&self, value: &str) -> Option<usize> {
        match self.end_string {
            Some(ref end_string) => value.find(&end_string[..]),
            None => Some(value.len()),
        }
    }

    pub fn new() -> GreedyParser {''')]),
('trie-search-merge','C03',[(N+'mod.rs','''        if self.literal_children.get(pos).unwrap().is_leaf() {
            self.search_prefix_is_found_and_node_is_leaf(literal, pos)
        } else {
            self.search_prefix_is_found_and_node_is_not_leaf(literal, pos)
        }''','''        let is_leaf = self.literal_children.get(pos).unwrap().is_leaf();
        if !is_leaf {
            return self.search_prefix_is_found_and_node_is_not_leaf(literal, pos);
        }
        self.search_prefix_is_found_and_node_is_leaf(literal, pos)''')]),
('trie-empty-helper','C03 C04',[(N+'mod.rs','''        // splitting a literal may leave an empty child behind, which matches any text
        match self.literal_children.get(0) {
            Some(child) if child.literal().is_empty() && !text.is_empty() => child.parse(text),
            _ => None,
        }
    }
''','''        self.parse_with_empty_literal(text)
    }

    // splitting a literal may leave an empty child behind, which matches any text
    fn parse_with_empty_literal<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
        match self.literal_children.get(0) {
            Some(child) if child.literal().is_empty() && !text.is_empty() => child.parse(text),
            _ => None,
        }
    }
''')]),
('trie-empty-if','C03 C04',[(N+'mod.rs','''        match self.literal_children.get(0) {
            Some(child) if child.literal().is_empty() && !text.is_empty() => child.parse(text),
            _ => None,
        }
    }
''','''        if text.is_empty() {
            return None;
        }
        if let Some(child) = self.literal_children.get(0) {
            if child.literal().is_empty() {
                return child.parse(text);
            }
        }
        None
    }
''')]),
('trie-parse-if','C03 C04',[(N+'mod.rs','''        match self.parse_with_literals(text) {
            Some(result) => Some(result),
            None => {
                trace!("parse(): #parser_children = {}", self.parser_children.len());
                self.parse_with_parsers(text)
            }
        }''','''        let result = self.parse_with_literals(text);
        if result.is_some() {
            return result;
        }
        trace!("parse(): #parser_children = {}", self.parser_children.len());
        self.parse_with_parsers(text)''')]),
('trie-parsers-while','C03 C04',[(N+'mod.rs','''        for i in &self.parser_children {
            trace!("parse(): testing parser");

            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        None''','''        let mut index = 0;
        while index < self.parser_children.len() {
            trace!("parse(): testing parser");

            match self.parser_children[index].parse(text) {
                None => index += 1,
                found => return found,
            }
        }
        None''')]),
('trie-kv-map','C02',[(N+'mod.rs','''        if let Some(mut result) = self.parse(text) {
            result.insert(kvpair);
            Some(result)
        } else {
            None
        }''','''        match self.parse(text) {
            Some(result) => {
                let mut result = result;
                result.insert(kvpair);
                Some(result)
            }
            None => None,
        }''')]),
('pnode-rest-helper','C03 C01',[(N+'parser.rs','''            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
            let text = text.ltrunc(parsed_kwpair.value().len());

            return match self.node() {
                Some(node) if !text.is_empty() || self.pattern().is_none() => {
                    node.parse_then_push_kvpair(text, parsed_kwpair)
                }
                _ => {
                    self.push_last_kvpair(text, parsed_kwpair)
                }
            };
        }
        None
    }
''','''            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
            let text = text.ltrunc(parsed_kwpair.value().len());
            return self.parse_rest(text, parsed_kwpair);
        }
        None
    }

    fn parse_rest<'a, 'b>(&'a self,
                          text: &'b str,
                          kvpair: ParseResult<'a, 'b>)
                          -> Option<MatchResult<'a, 'b>> {
        match self.node() {
            Some(node) if !text.is_empty() || self.pattern().is_none() => {
                node.parse_then_push_kvpair(text, kvpair)
            }
            _ => self.push_last_kvpair(text, kvpair),
        }
    }
'''),(N+'parser.rs','''            let text = value.ltrunc(parsed_kwpair.value().len());

            return match self.node() {
                Some(node) if !text.is_empty() || self.pattern().is_none() => {
                    node.parse_then_push_kvpair(text, parsed_kwpair)
                }
                _ => {
                    self.push_last_kvpair(text, parsed_kwpair)
                }
            };''','''            let text = value.ltrunc(parsed_kwpair.value().len());
            return self.parse_rest(text, parsed_kwpair);''')]),
('pnode-cond','C03 C01',[(N+'parser.rs','''            let text = text.ltrunc(parsed_kwpair.value().len());

            return match self.node() {
                Some(node) if !text.is_empty() || self.pattern().is_none() => {
                    node.parse_then_push_kvpair(text, parsed_kwpair)
                }
                _ => {
                    self.push_last_kvpair(text, parsed_kwpair)
                }
            };''','''            let rest = text.ltrunc(parsed_kwpair.value().len());
            let ends_here = rest.is_empty() && self.pattern().is_some();

            if ends_here {
                return self.push_last_kvpair(rest, parsed_kwpair);
            }
            return match self.node() {
                Some(node) => node.parse_then_push_kvpair(rest, parsed_kwpair),
                None => None,
            };''')]),
('pnode-qm','C03 C01',[(N+'parser.rs','''        if let Some(parsed_kwpair) = self.parser.parse(text) {
            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
            let text = text.ltrunc(parsed_kwpair.value().len());

            return match self.node() {
                Some(node) if !text.is_empty() || self.pattern().is_none() => {
                    node.parse_then_push_kvpair(text, parsed_kwpair)
                }
                _ => {
                    self.push_last_kvpair(text, parsed_kwpair)
                }
            };
        }
        None''','''        let kvpair = self.parser.parse(text)?;
        trace!("parse(): parsed_kwpair = {:?}", &kvpair);
        let consumed = kvpair.value().len();
        let text = text.ltrunc(consumed);

        match self.node() {
            Some(node) if !text.is_empty() || self.pattern().is_none() => {
                node.parse_then_push_kvpair(text, kvpair)
            }
            _ => self.push_last_kvpair(text, kvpair),
        }''')]),
('split-helper','C03',[(N+'literal.rs','''        let mut left_node = {
            let left_branch = literal.ltrunc(common_prefix_len);
            trace!("split(): left_branch = {}", left_branch);
            LiteralNode::new(left_branch)
        };''','''        let mut left_node = LiteralNode::branch(literal, common_prefix_len);'''),(N+'literal.rs','''        let mut right_node = {
            let right_branch = self.literal().ltrunc(common_prefix_len);
            trace!("split(): right_branch = {}", right_branch);
            LiteralNode::new(right_branch)
        };''','''        let mut right_node = LiteralNode::branch(self.literal(), common_prefix_len);'''),(N+'literal.rs','''    pub fn split(&mut self''','''    fn branch(literal: &str, common_prefix_len: usize) -> LiteralNode {
        let branch = literal.ltrunc(common_prefix_len);
        trace!("split(): branch = {}", branch);
        LiteralNode::new(branch)
    }

    pub fn split(&mut self''')]),
('split-take','C03',[(N+'literal.rs','''        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }
''','''        right_node.set_pattern(self.pattern.take());
''')]),
('split-fields','C03',[(N+'literal.rs','''        right_node.set_node(self.node.take());
        right_node.set_has_value(self.has_value);

        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }
''','''        right_node.has_value = self.has_value;
        right_node.pattern = self.pattern.take();
        right_node.node = self.node.take();
''')]),
('lit-cmp-chars','C03',[(N+'literal.rs','''        if self.literal.is_empty() && other.is_empty() {
            Ordering::Equal
        } else if self.literal.is_empty() {
            Ordering::Less
        } else if other.is_empty() {
            Ordering::Greater
        } else {
            self.literal.chars().next().cmp(&other.chars().next())
        }''','''        match (self.literal.is_empty(), other.is_empty()) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => self.literal.chars().next().cmp(&other.chars().next()),
        }''')]),
('lit-cmp-short','C03',[(N+'literal.rs','''        if self.literal.is_empty() && other.is_empty() {
            Ordering::Equal
        } else if self.literal.is_empty() {
            Ordering::Less
        } else if other.is_empty() {
            Ordering::Greater
        } else {
            self.literal.chars().next().cmp(&other.chars().next())
        }''','''        // None is less than any character
        let ours = self.literal.chars().next();
        let theirs = other.chars().next();
        ours.cmp(&theirs)''')]),
('trie-tail-unwrap','C03',[(N+'mod.rs','''                if let Some(common_prefix_len) = self.literal_children
                                                     .get(pos)
                                                     .unwrap()
                                                     .literal()
                                                     .has_common_prefix(tail) {''','''                let prefix = self.literal_children.get(pos).unwrap().literal().has_common_prefix(tail);
                if let Some(common_prefix_len) = prefix {''')]),
('trie-tail-match','C03',[(N+'mod.rs','''                    trace!("insert_literal_tail(): common_prefix_len = {}",
                           common_prefix_len);
                    let hit = self.literal_children
                                  .get_mut(pos)
                                  .expect("Failed to remove a literal child");
                    trace!("insert_literal_tail(): to_be_split = {}", hit.literal());
                    trace!("insert_literal_tail(): tail = {}", tail);
                    hit.split(common_prefix_len, tail);
                    let suffix = tail.ltrunc(common_prefix_len);
                    hit.node_mut()''','''                    let suffix = tail.ltrunc(common_prefix_len);
                    let hit = self.literal_children
                                  .get_mut(pos)
                                  .expect("Failed to remove a literal child");
                    hit.split(common_prefix_len, tail);
                    hit.node_mut()''')]),
('sa-lits-range','C03 C04',[(A+'impls.rs','''        let mut pos = match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
            Ok(pos) => pos + 1,
            Err(pos) => pos,
        };
        while pos > 0 {
            pos -= 1;
            if let Some(result) = self.literal_entries[pos].parse(value) {
                return Some(result);
            }
        }
        None''','''        let end = match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
            Ok(pos) => pos + 1,
            Err(pos) => pos,
        };
        for pos in (0..end).rev() {
            if let Some(result) = self.literal_entries[pos].parse(value) {
                return Some(result);
            }
        }
        None''')]),
('sa-lits-helper','C03 C04',[(A+'impls.rs','''        let mut pos = match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
            Ok(pos) => pos + 1,
            Err(pos) => pos,
        };
        while pos > 0 {''','''        let mut pos = self.count_not_greater(value);
        while pos > 0 {'''),(A+'impls.rs','''    fn parse_with_parsers<''','''    fn count_not_greater(&self, value: &str) -> usize {
        match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
            Ok(pos) => pos + 1,
            Err(pos) => pos,
        }
    }

    fn parse_with_parsers<''')]),
('sa-lits-findmap','C03 C04',[(A+'impls.rs','''        while pos > 0 {
            pos -= 1;
            if let Some(result) = self.literal_entries[pos].parse(value) {
                return Some(result);
            }
        }
        None''','''        loop {
            if pos == 0 {
                return None;
            }
            pos -= 1;
            let result = self.literal_entries[pos].parse(value);
            if result.is_some() {
                return result;
            }
        }''')]),
('sa-par-filter','C03 C04',[(A+'impls.rs','''        for parser in &self.parser_entries {
            if let Some(result) = parser.parse(value) {
                return Some(result);
            }
        }
        None''','''        self.parser_entries.iter().filter_map(|parser| parser.parse(value)).next()''')]),
('sa-ins-lit','C03',[(A+'impls.rs','''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
        match result {
            Ok(pos) => {
                self.literal_entries.get_mut(pos).expect("Literal entry found, but failed to remove")
            },
            Err(pos) => {
                let entry = LiteralE::new(literal);
                self.literal_entries.insert(pos, entry);
                self.literal_entries.get_mut(pos).expect("Literal entry inserted, but failed to remove")
            }
        }''','''        let pos = match self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal)) {
            Ok(pos) => pos,
            Err(pos) => {
                self.literal_entries.insert(pos, LiteralE::new(literal));
                pos
            }
        };
        &mut self.literal_entries[pos]''')]),
('sa-pe-early','C03 C01',[(A+'impls.rs','''        self.parser.parse(value).and_then(|kvpair| {
            let value = value.ltrunc(kvpair.value().len());

            if value.is_empty() && self.pattern().is_some() {
                self.create_match_result(kvpair)
            } else {
                self.child().and_then(|child| child.parse(value)).and_then(|mut result| {
                    result.insert(kvpair);
                    Some(result)
                })
            }
        })''','''        let kvpair = match self.parser.parse(value) {
            Some(kvpair) => kvpair,
            None => return None,
        };
        let rest = value.ltrunc(kvpair.value().len());

        if rest.is_empty() && self.pattern().is_some() {
            return self.create_match_result(kvpair);
        }
        match self.child() {
            Some(child) => {
                child.parse(rest).map(|mut result| {
                    result.insert(kvpair);
                    result
                })
            }
            None => None,
        }''')]),
('entry-insert-early','C03',[(A+'interface.rs','''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));
        } else {
            if self.child().is_none() {
                let sa = Self::SA::new();
                self.set_child(Some(sa));
            }
            self.child_mut().expect("Failed to get a child").insert(pattern);
        }''','''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));
            return;
        }
        if self.child().is_none() {
            self.set_child(Some(Self::SA::new()));
        }
        if let Some(child) = self.child_mut() {
            child.insert(pattern);
        }''')]),
('entry-insert-helper','C03',[(N+'interface.rs','''            if self.child().is_none() {
                let sa = Self::ST::new();
                self.set_child(Some(sa));
            }
            self.child_mut().expect("Failed to get a child").insert(pattern);
        }
    }''','''            self.ensure_child();
            self.child_mut().expect("Failed to get a child").insert(pattern);
        }
    }
    fn ensure_child(&mut self) {
        if self.child().is_none() {
            let sa = Self::ST::new();
            self.set_child(Some(sa));
        }
    }''')]),
('tm-tags-pair','C09',[(TM,'''        if let Some(expected_tags) = self.tags() {
            if let Some(got_tags) = result.pattern().tags() {
                try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
                                                                      got_tags,
                                                                      result));
            } else {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())''','''        match (self.tags(), result.pattern().tags()) {
            (None, _) => Ok(()),
            (Some(_), None) => Err(self.report_unexpected_tags_error(result)),
            (Some(expected_tags), Some(got_tags)) => {
                self.test_expected_tags_can_be_found_in_got_tags(expected_tags, got_tags, result)
            }
        }''')]),
('tm-tags-any','C09',[(TM,'''        for i in expected_tags {
            if !got_tags.contains(i) {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())''','''        let missing = expected_tags.iter().any(|tag| !got_tags.contains(tag));
        if missing {
            Err(self.report_unexpected_tags_error(result))
        } else {
            Ok(())
        }''')]),
('tm-value-guard','C09',[(TM,'''        if let Some(got_value) = values.get(key) {
            let got_value: &str = got_value;
            if value == got_value {
                Ok(())
            } else {
                Err(Error::value_not_match(result.pattern().uuid(), key, value, got_value))
            }
        } else {
            Err(Error::key_not_found(result.pattern().uuid(), key))
        }''','''        let uuid = result.pattern().uuid();
        match values.get(key) {
            Some(got_value) if *got_value == value => Ok(()),
            Some(got_value) => Err(Error::value_not_match(uuid, key, value, got_value)),
            None => Err(Error::key_not_found(uuid, key)),
        }''')]),
('tm-qm','C09',[(TM,'''        try!(self.test_tags(result));
        self.test_values(result)''','''        self.test_tags(result)?;
        self.test_values(result)?;
        Ok(())''')]),
('src-extract-loop','C10',[(PS,'''        while let Some(test_message) = pattern.pop_test_message() {
            messages.push(test_message);
        }
        messages''','''        loop {
            match pattern.pop_test_message() {
                Some(test_message) => messages.push(test_message),
                None => return messages,
            }
        }''')]),
('src-check-match','C10',[(PS,'''            let result = try!(matcher.parse(msg.message())
                                     .ok_or(testmessage::Error::test_message_does_not_match(uuid,
                                                                                            msg)));
            try!(Self::check_test_message(msg, &result, uuid));''','''            match matcher.parse(msg.message()) {
                Some(result) => try!(Self::check_test_message(msg, &result, uuid)),
                None => {
                    let error = testmessage::Error::test_message_does_not_match(uuid, msg);
                    return Err(BuildError::from(error));
                }
            }''')]),
('src-check-early','C10',[(PS,'''        if result.pattern().uuid() == expected_uuid {
            message.test_result(result)
        } else {
            Err(testmessage::Error::matched_to_other_pattern(expected_uuid,
                result.pattern().uuid(),
                message.message()))
        }''','''        let got_uuid = result.pattern().uuid();
        if got_uuid != expected_uuid {
            return Err(testmessage::Error::matched_to_other_pattern(expected_uuid,
                                                                    got_uuid,
                                                                    message.message()));
        }
        message.test_result(result)''')]),
('src-ignore','C10',[(PS,'''            let result = Self::check_pattern::<F::Matcher>(&mut matcher, pattern);
            if let Err(error) = result {
                error!("{}", error);
            }''','''            match Self::check_pattern::<F::Matcher>(&mut matcher, pattern) {
                Ok(()) => (),
                Err(error) => error!("{}", error),
            }''')]),
('ldr-helpers','C11',[(PL,'''                    "json" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_json::from_str::<PatternFile>(&content));
                        Ok(file)
                    },''','''                    "json" => PatternLoader::load_json(pattern_file_path),'''),(PL,'''    pub fn load_file(''','''    fn load_json(pattern_file_path: &str) -> Result<PatternFile, BuildError>
    {
        let content = try!(PatternLoader::read(pattern_file_path));
        let file = try!(serde_json::from_str::<PatternFile>(&content));
        Ok(file)
    }

    pub fn load_file(''')]),
('ldr-ext','C11',[(PL,'''        match path.extension() {
            Some(extension) => {
                match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {''','''        match path.extension() {
            Some(extension) => {
                let extension = match extension.to_str() {
                    Some(extension) => extension,
                    None => return Err(BuildError::NotUtf8FileName),
                };
                match extension {''')]),
('iter-map-ok','C11',[(M+'pattern/file/iter.rs','''        match self.patterns.pop() {
            Some(pattern) => Some(Ok(pattern)),
            None => None,
        }''','''        self.patterns.pop().map(Ok)''')]),
('deser-uuid','C11',[(D,'''        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));''','''        let uuid = match uuid {
            Some(uuid) => uuid,
            None => return Err(serde::de::Error::missing_field("uuid")),
        };''')]),
('deser-ret','C11',[(D,'''                        try!(Err(serde::de::Error::custom("Invalid field 'pattern'")))''','''                        return Err(serde::de::Error::custom("Invalid field 'pattern'"));'''),(D,'''                try!(Err(serde::de::Error::missing_field("pattern")))''','''                return Err(serde::de::Error::missing_field("pattern"));''')]),
('sv-find-map','C13',[(S+'utils/sortedvec.rs','''        if let Some(index) = self.binary_search(value) {
            self.array.get(index)
        } else {
            None
        }''','''        self.find_pos(value).map(|index| &self.array[index])''')]),
('sv-mid','C13',[(S+'utils/sortedvec.rs','''            let mid = (low + high) / 2;

            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => return Some(mid),
            }''','''            let mid = low + (high - low) / 2;
            let ordering = self.array[mid].cmp(needle);

            if ordering == Ordering::Equal {
                return Some(mid);
            } else if ordering == Ordering::Less {
                low = mid + 1;
            } else {
                high = mid;
            }''')]),
('res-match','C02',[(M+'result.rs','''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }''','''        let parser = result.parser();
        let value = result.value();
        match parser.name() {
            Some(name) => {
                self.values.insert(name, value);
            }
            None => (),
        }''')]),
('pat-pop-first','C01',[(M+'pattern/pattern.rs','''        if self.pattern.is_empty() {
            None
        } else {
            Some(self.pattern.remove(0))
        }''','''        if self.pattern.len() > 0 {
            let token = self.pattern.remove(0);
            return Some(token);
        }
        None''')]),
('fac-name','C07',[(M+'trie/parser_factory.rs','''        let mut parser = GreedyParser::new();
        let end_string = end_string.map(|string| string.to_owned());
        parser.set_end_string(end_string);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)''','''        let mut parser = GreedyParser::new();
        parser.set_name(name.map(|name| name.to_owned()));
        parser.set_end_string(end_string.map(|string| string.to_owned()));
        Box::new(parser)''')]),
('gr-unescape-let','C07',[(G+'mod.rs','''    literal.replace(r#"\\%\\{"#, "%{")''','''    let escaped = r#"\\%\\{"#;
    let unescaped = "%{";
    literal.replace(escaped, unescaped)''')]),
('gr-any-char','C07',[(G+'parser/pattern_parser.rs','''    if input.len() > pos {
        let (_, next) = char_range_at(input, pos);
        Matched(next, ())
    } else {
        state.mark_failure(pos, "<character>")
    }''','''    if pos >= input.len() {
        return state.mark_failure(pos, "<character>");
    }
    let (_, next) = char_range_at(input, pos);
    Matched(next, ())''')]),
('gr-pos-line','C08 C07',[(G+'parser/pattern_parser.rs','''    let mut remaining = pos;
    let mut lineno: usize = 1;
    for line in input.lines() {
        let line_length = line.len() + 1;
        if remaining < line_length {
            return (lineno, remaining + 1);
        }
        remaining -= line_length;
        lineno += 1;
    }
    (lineno, remaining + 1)''','''    let mut line_start = 0;
    let mut lineno: usize = 1;
    for line in input.lines() {
        let next_start = line_start + line.len() + 1;
        if pos < next_start {
            break;
        }
        line_start = next_start;
        lineno += 1;
    }
    (lineno, pos - line_start + 1)''')]),
('gr-choice','C07',[(G+'parser/pattern_parser.rs','''        let choice_res = parse_parser_SET::<F>(input, state, pos);
        match choice_res {
            Matched(pos, value) => Matched(pos, value),
            Failed => parse_parser_INT::<F>(input, state, pos),
        }''','''        match parse_parser_SET::<F>(input, state, pos) {
            Failed => parse_parser_INT::<F>(input, state, pos),
            matched => matched,
        }''')]),
('flatten-whole','C07',[(S+'utils/mod.rs','''    for vector in vectors.into_iter() {
        for i in vector.into_iter() {
            flattened_vec.push(i);
        }
    }''','''    for mut vector in vectors {
        flattened_vec.append(&mut vector);
    }''')]),
]
