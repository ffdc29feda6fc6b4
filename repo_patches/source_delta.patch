From 052a02e1ed8f4d7e7eaffcae321122aaf576841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 01/23] fix: share the token sequence instead of copying it for
 every token

Every token match and every alternative cloned the whole remaining token
vector, so loading took time and memory quadratic in the size of the file
(a 100k line file needed minutes). TokenSet is now a range over a shared
vector.
---
 src/tokenizer/mod.rs | 52 ++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 6b5ab60..be40e0d 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -8,6 +8,7 @@ use std::borrow::Cow;
 use std::iter::Enumerate;
 use std::ops::Index;
 use std::ops::IndexMut;
+use std::rc::Rc;
 
 pub use mtl::parse_mtl;
 use nom::{
@@ -466,48 +467,63 @@ pub enum Token<'a> {
     OptionTextureResolution,
 }
 
-#[derive(Debug, Clone)]
+/// A range of a shared token sequence. The parsers clone and split their input
+/// for every token and every alternative, so neither may copy the tokens.
+#[derive(Clone)]
 pub struct TokenSet<'a> {
-    tokens: Vec<Token<'a>>,
+    tokens: Rc<Vec<Token<'a>>>,
+    start: usize,
+    end: usize,
+}
+
+impl std::fmt::Debug for TokenSet<'_> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.debug_struct("TokenSet")
+            .field("tokens", &self.as_ref())
+            .finish()
+    }
 }
 
 impl TokenSet<'_> {
     pub fn is_empty(&self) -> bool {
-        self.tokens.is_empty()
+        self.start == self.end
     }
 
     pub fn split_at(&self, index: usize) -> (Self, Self) {
-        let (a, b) = self.tokens.split_at(index);
-        (Self { tokens: a.to_vec() }, Self { tokens: b.to_vec() })
+        (self.take(index), self.take_from(index))
     }
 
     pub fn len(&self) -> usize {
-        self.tokens.len()
+        self.end - self.start
     }
 }
 
 impl<'a> Index<usize> for TokenSet<'a> {
     type Output = Token<'a>;
     fn index(&self, index: usize) -> &Self::Output {
-        &self.tokens[index]
+        &self.as_ref()[index]
     }
 }
 
 impl IndexMut<usize> for TokenSet<'_> {
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
-        &mut self.tokens[index]
+        &mut Rc::make_mut(&mut self.tokens)[self.start..self.end][index]
     }
 }
 
 impl<'a> From<Vec<Token<'a>>> for TokenSet<'a> {
     fn from(tokens: Vec<Token<'a>>) -> Self {
-        Self { tokens }
+        Self {
+            start: 0,
+            end: tokens.len(),
+            tokens: Rc::new(tokens),
+        }
     }
 }
 
-impl<'a> AsRef<Vec<Token<'a>>> for TokenSet<'a> {
-    fn as_ref(&self) -> &Vec<Token<'a>> {
-        &self.tokens
+impl<'a> AsRef<[Token<'a>]> for TokenSet<'a> {
+    fn as_ref(&self) -> &[Token<'a>] {
+        &self.tokens[self.start..self.end]
     }
 }
 
@@ -515,7 +531,7 @@ impl<'a> Iterator for TokenSet<'a> {
     type Item = Token<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.tokens.first().cloned()
+        self.as_ref().first().cloned()
     }
 }
 
@@ -530,13 +546,17 @@ impl<'a> Input for TokenSet<'a> {
 
     fn take(&self, index: usize) -> Self {
         Self {
-            tokens: self.tokens.iter().take(index).cloned().collect(),
+            tokens: Rc::clone(&self.tokens),
+            start: self.start,
+            end: self.start + index.min(self.len()),
         }
     }
 
     fn take_from(&self, index: usize) -> Self {
         Self {
-            tokens: self.tokens[index..].to_vec(),
+            tokens: Rc::clone(&self.tokens),
+            start: self.start + index.min(self.len()),
+            end: self.end,
         }
     }
 
@@ -548,7 +568,7 @@ impl<'a> Input for TokenSet<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.tokens.iter().position(|t| predicate(t.clone()))
+        self.as_ref().iter().position(|t| predicate(t.clone()))
     }
 
     fn iter_elements(&self) -> Self::Iter {
-- 
2.43.0


From b4b947cd8c7d7bfba2d9530f5486225628c2b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 02/23] fix: match keywords by ASCII case only

A word starting with the Kelvin sign (U+212A) followed by a, d, e or s made
load_mtl panic: nom's tag_no_case folds it to k and then slices inside it.
---
 src/tokenizer/mod.rs | 14 +++++++++++++-
 src/tokenizer/mtl.rs |  4 ++--
 src/tokenizer/obj.rs |  4 ++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index be40e0d..e1d618e 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -16,7 +16,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::digit1,
     combinator::{map, opt},
-    error::Error,
+    error::{Error, ErrorKind},
     multi::{fold_many0, fold_many1},
     Input, Parser,
 };
@@ -588,6 +588,18 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+/// Matches a keyword without regard to ASCII case. nom's own `tag_no_case` folds
+/// Unicode case while slicing by the length of the keyword: it panics on a
+/// look-alike such as the Kelvin sign, which is longer than the `k` it folds to.
+fn tag_no_case<'a>(
+    word: &'static str,
+) -> impl Parser<&'a str, Output = &'a str, Error = Error<&'a str>> {
+    move |input: &'a str| match input.get(..word.len()) {
+        Some(head) if head.eq_ignore_ascii_case(word) => Ok((&input[word.len()..], head)),
+        _ => Err(nom::Err::Error(Error::new(input, ErrorKind::Tag))),
+    }
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 47ce969..c8ec788 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{is_not, tag, tag_no_case, take_till},
+    bytes::{is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index ef13c95..2d1fbab 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{complete::is_not, tag, tag_no_case, take_till},
+    bytes::{complete::is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
-- 
2.43.0


From 49dccc2f0052fc44ae562c2eddcb74c2e0f0392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 03/23] fix: report an error when a statement is not understood

The statement loops stop at the first statement they cannot parse; everything
after it was dropped and the load still succeeded.
---
 src/material.rs | 8 +++++++-
 src/model.rs    | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 1c56d41..77a726d 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -414,7 +414,13 @@ enum MaterialElement {
 
 pub(crate) fn parse(input: TokenSet<'_>) -> Result<Vec<Material>, MaterialError> {
     let elements: Vec<MaterialElement> = match parse_material_set().parse_complete(input) {
-        Ok((_, x)) => x,
+        Ok((rest, x)) if rest.is_empty() => x,
+        Ok((rest, _)) => {
+            return Err(MaterialError::Parse(format!(
+                "Unexpected token: {:?}",
+                rest[0]
+            )))
+        },
         Err(e) => return Err(MaterialError::Parse(e.to_string())),
     };
 
diff --git a/src/model.rs b/src/model.rs
index 567e016..43e7497 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -301,7 +301,11 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
     )
     .parse_complete(input)
     {
-        Ok((_, acc)) => Ok(acc),
+        Ok((rest, acc)) if rest.is_empty() => Ok(acc),
+        Ok((rest, _)) => Err(ModelError::Parse(format!(
+            "Unexpected token: {:?}",
+            rest[0]
+        ))),
         Err(e) => Err(ModelError::Parse(e.to_string())),
     }
 }
-- 
2.43.0


From fe6f8908b09cdf0ab0b738469e044332560ee756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 04/23] fix: accept exponents without a decimal point, reject a
 lone point

1e-05, as many exporters write it, was read as the number 1 followed by a
word; a point without any digits was read as 0.
---
 src/tokenizer/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index e1d618e..600039c 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -17,7 +17,7 @@ use nom::{
     character::complete::digit1,
     combinator::{map, opt},
     error::{Error, ErrorKind},
-    multi::{fold_many0, fold_many1},
+    multi::fold_many1,
     Input, Parser,
 };
 pub use obj::parse_obj;
@@ -627,7 +627,7 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             alt((
                 map(
                     (
-                        fold_many0(digit1, Vec::new, |mut acc: Vec<_>, item| {
+                        fold_many1(digit1, Vec::new, |mut acc: Vec<_>, item| {
                             acc.push(item);
                             acc
                         }),
@@ -685,6 +685,24 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                     ),
                     |(f, _, s, e)| (f.unwrap_or_default(), s, e.unwrap_or_default()),
                 ),
+                map(
+                    (
+                        fold_many1(digit1, Vec::new, |mut acc: Vec<_>, item| {
+                            acc.push(item);
+                            acc
+                        }),
+                        alt((tag("e"), tag("E"))),
+                        opt(alt((tag("+"), tag("-")))),
+                        digit1,
+                    ),
+                    |(f, e, sign, digits)| {
+                        (
+                            f,
+                            Vec::new(),
+                            format!("{}{}{}", e, sign.unwrap_or_default(), digits),
+                        )
+                    },
+                ),
             )),
         ),
         |(sign, (f, s, e)): (Option<&str>, (Vec<&str>, Vec<&str>, String))| {
-- 
2.43.0


From 9f39c6b2ef70d4a37a2cfc15339ef0c7c2190b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 05/23] fix: keep whole numbers that do not fit 32 bits

They were replaced by 0. As a coordinate they are now a float, and where an
integer is required they are an error.
---
 src/tokenizer/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 600039c..29cf099 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -610,11 +610,12 @@ fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             }),
         ),
         |(sign, s): (Option<&str>, Vec<&str>)| {
-            let mut val = s.join("").parse::<i32>().unwrap_or_default();
-            if sign == Some("-") {
-                val *= -1;
+            let text = format!("{}{}", sign.unwrap_or_default(), s.join(""));
+            match text.parse::<i32>() {
+                Ok(val) => Token::Int(val),
+                // Too large for an integer, but still a fine coordinate.
+                Err(_) => Token::Float(text.parse::<f32>().unwrap_or_default()),
             }
-            Token::Int(val)
         },
     )
 }
-- 
2.43.0


From 04a555f5b48c960e20e3742716e93ce471e9444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 06/23] fix: take OBJ names as the rest of their line

Names were read as numbers, slashes or keywords when they looked like one
("mtllib ./a.mtl", "g 1", "g s", "usemtl 01_wood"), and a trailing comment or
trailing blanks became part of the name.
---
 src/tokenizer/mod.rs | 32 ++++++++++++++++++++++++++++++--
 src/tokenizer/obj.rs | 32 +++++++++++++++++++++++++-------
 2 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 29cf099..e75a796 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -13,9 +13,9 @@ use std::rc::Rc;
 pub use mtl::parse_mtl;
 use nom::{
     branch::alt,
-    bytes::complete::tag,
+    bytes::complete::{self, tag},
     character::complete::digit1,
-    combinator::{map, opt},
+    combinator::{map, map_opt, opt},
     error::{Error, ErrorKind},
     multi::fold_many1,
     Input, Parser,
@@ -33,6 +33,9 @@ pub enum TokenizeError {
 #[derive(Clone, Debug, PartialEq)]
 pub enum Token<'a> {
     Ignore,
+    /// A keyword together with the rest of its line, which is a name or a list
+    /// of names. Becomes the keyword's token followed by a `String`.
+    Named(Box<Token<'a>>, &'a str),
     String(Cow<'a, str>),
     Float(f32),
     Int(i32),
@@ -600,6 +603,31 @@ fn tag_no_case<'a>(
     }
 }
 
+/// The text up to the end of the line, without a trailing comment and without
+/// the blanks in front of it.
+fn rest_of_line<'a>() -> impl Parser<&'a str, Output = &'a str, Error = Error<&'a str>> {
+    map_opt(complete::is_not("\r\n"), |line: &str| {
+        let comment = line
+            .match_indices('#')
+            .map(|(i, _)| i)
+            .find(|i| *i == 0 || line[..*i].ends_with([' ', '\t']));
+        let text = &line[..comment.unwrap_or(line.len())];
+        Some(text.trim_end_matches([' ', '\t'])).filter(|text| !text.is_empty())
+    })
+}
+
+/// Adds a token to the sequence handed to the parsers.
+fn push_token<'a>(acc: &mut Vec<Token<'a>>, item: Token<'a>) {
+    match item {
+        Token::Ignore => {},
+        Token::Named(keyword, name) => {
+            acc.push(*keyword);
+            acc.push(Token::String(Cow::Borrowed(name)));
+        },
+        item => acc.push(item),
+    }
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 2d1fbab..05fa7b8 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -3,9 +3,9 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{complete::is_not, tag, take_till},
+    bytes::{tag, take_till},
     character::{
-        complete::{line_ending, multispace1},
+        complete::{line_ending, multispace1, space1},
         multispace0,
     },
     combinator::map,
@@ -14,11 +14,31 @@ use nom::{
     Parser,
 };
 
-use super::{tag_no_case, Token, TokenSet, TokenizeError};
+use super::{push_token, rest_of_line, tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
         alt((
+            // A name is the rest of the line, whatever it looks like.
+            map(
+                (
+                    preceded(
+                        multispace0(),
+                        alt([
+                            tag_no_case("mtllib"),
+                            tag_no_case("usemtl"),
+                            tag_no_case("shadow_obj"),
+                            tag_no_case("trace_obj"),
+                            tag_no_case("maplib"),
+                            tag_no_case("usemap"),
+                            tag_no_case("o"),
+                            tag_no_case("g"),
+                        ]),
+                    ),
+                    preceded(space1, rest_of_line()),
+                ),
+                |(keyword, name)| Token::Named(Box::new(kw_map(keyword)), name),
+            ),
             delimited(
                 multispace0(),
                 map(
@@ -56,13 +76,11 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not("\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            map(rest_of_line(), |s: &str| Token::String(Cow::Borrowed(s))),
         )),
         Vec::new,
         |mut acc: Vec<Token>, item| {
-            if item != Token::Ignore {
-                acc.push(item);
-            }
+            push_token(&mut acc, item);
             acc
         },
     )
-- 
2.43.0


From 3e01fa75f579459ab5d4f2a0545b74cf1d4efc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 07/23] fix: split the name lists of g, mtllib and maplib

The statements take several names, and the model keeps several, but the line
was taken as one name - and the next line too, if it was not understood.
---
 src/model.rs         | 43 ++++++++++++++++++++++++++-----------------
 src/tokenizer/mod.rs |  1 -
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 43e7497..433f0ae 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -11,7 +11,7 @@ use nom::{
     branch::alt,
     combinator::{map, opt},
     error,
-    multi::{fold_many0, fold_many1, many1},
+    multi::{fold_many0, fold_many1},
     sequence::preceded,
     IResult, Parser,
 };
@@ -266,7 +266,9 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                     model.current_group.clear();
                     for g in groups {
                         model.groups.insert(g.clone(), Default::default());
-                        model.current_group.push(g);
+                        if !model.current_group.contains(&g) {
+                            model.current_group.push(g);
+                        }
                     }
                 },
                 ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),
@@ -555,21 +557,29 @@ pub(crate) fn parse_point<'a>(
     )
 }
 
+/// Splits the argument of a statement which takes a list of names.
+fn split_names(names: &str) -> Vec<String> {
+    names
+        .split([' ', '\t'])
+        .filter(|name| !name.is_empty())
+        .map(String::from)
+        .collect()
+}
+
 pub(crate) fn parse_group<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
         preceded(
             token_match!(Token::Group),
-            many1(map(
-                token_match!(Token::String(_)),
-                |s| match get_token_string(&s) {
-                    Ok(s) => s.into(),
+            map(token_match!(Token::String(_)), |s| {
+                match get_token_string(&s) {
+                    Ok(s) => split_names(&s),
                     Err(e) => {
                         log::error!("{}", e);
                         Default::default()
                     },
-                },
-            )),
+                }
+            }),
         ),
         ModelElement::Group,
     )
@@ -580,16 +590,15 @@ pub(crate) fn parse_mat_lib<'a>(
     map(
         preceded(
             token_match!(Token::MaterialLib),
-            many1(map(
-                token_match!(Token::String(_)),
-                |s| match get_token_string(&s) {
-                    Ok(s) => s.into(),
+            map(token_match!(Token::String(_)), |s| {
+                match get_token_string(&s) {
+                    Ok(s) => split_names(&s),
                     Err(e) => {
                         log::error!("{}", e);
                         Default::default()
                     },
-                },
-            )),
+                }
+            }),
         ),
         ModelElement::MaterialLib,
     )
@@ -803,7 +812,7 @@ pub(crate) fn parse_texture_lib<'a>(
     map(
         preceded(
             token_match!(Token::TextureMapLib),
-            many1(map(token_match!(Token::String(_)), |s| {
+            map(token_match!(Token::String(_)), |s| {
                 let res = match get_token_string(&s) {
                     Ok(s) => s,
                     Err(e) => {
@@ -812,8 +821,8 @@ pub(crate) fn parse_texture_lib<'a>(
                     },
                 };
 
-                res.into()
-            })),
+                split_names(&res)
+            }),
         ),
         ModelElement::TextureLib,
     )
diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index e75a796..6d489a1 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -84,7 +84,6 @@ pub enum Token<'a> {
     Object,
 
     /// g group_name1 group_name2 ...
-    /// Currently ignores all names after the first
     Group,
 
     /// s group_number
-- 
2.43.0


From 8c61e041663924db5948f71b81fdb227b8ebe635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 08/23] fix: end numbers and words at word boundaries

---
 src/tokenizer/mod.rs | 13 ++++++++++++-
 src/tokenizer/mtl.rs | 10 +++++-----
 src/tokenizer/obj.rs |  8 ++++----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 6d489a1..2c968d3 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -15,7 +15,7 @@ use nom::{
     branch::alt,
     bytes::complete::{self, tag},
     character::complete::digit1,
-    combinator::{map, map_opt, opt},
+    combinator::{eof, map, map_opt, opt, peek},
     error::{Error, ErrorKind},
     multi::fold_many1,
     Input, Parser,
@@ -615,6 +615,17 @@ fn rest_of_line<'a>() -> impl Parser<&'a str, Output = &'a str, Error = Error<&'
     })
 }
 
+/// Succeeds where a number may end, without consuming anything: `1.2.3` and
+/// `3d.png` are words, not numbers followed by something else.
+fn end_of_number<'a>(
+    delimiters: &'static str,
+) -> impl Parser<&'a str, Output = (), Error = Error<&'a str>> {
+    peek(alt((
+        map(complete::is_a(delimiters), |_| ()),
+        map(eof, |_| ()),
+    )))
+}
+
 /// Adds a token to the sequence handed to the parsers.
 fn push_token<'a>(acc: &mut Vec<Token<'a>>, item: Token<'a>) {
     match item {
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index c8ec788..569a094 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -10,11 +10,11 @@ use nom::{
     },
     combinator::map,
     multi::fold_many0,
-    sequence::{delimited, preceded},
+    sequence::{delimited, preceded, terminated},
     Parser,
 };
 
-use super::{tag_no_case, Token, TokenSet, TokenizeError};
+use super::{end_of_number, tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
@@ -67,14 +67,14 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
-            super::parse_float(),
-            super::parse_digit(),
+            terminated(super::parse_float(), end_of_number(" \t\r\n#")),
+            terminated(super::parse_digit(), end_of_number(" \t\r\n#")),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not(" \r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            map(is_not(" \t\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
         )),
         Vec::new,
         |mut acc: Vec<Token>, item| {
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 05fa7b8..18bd8e7 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -10,11 +10,11 @@ use nom::{
     },
     combinator::map,
     multi::fold_many0,
-    sequence::{delimited, preceded},
+    sequence::{delimited, preceded, terminated},
     Parser,
 };
 
-use super::{push_token, rest_of_line, tag_no_case, Token, TokenSet, TokenizeError};
+use super::{end_of_number, push_token, rest_of_line, tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
@@ -69,8 +69,8 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 map(multispace1, |_| Token::Ignore),
             ),
             map(tag("/"), |_| Token::Slash),
-            super::parse_float(),
-            super::parse_digit(),
+            terminated(super::parse_float(), end_of_number(" \t\r\n#/")),
+            terminated(super::parse_digit(), end_of_number(" \t\r\n#/")),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
-- 
2.43.0


From 272d8fd238be9db1ac683863925541c3b596d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 09/23] fix: take the material name as the rest of its line

---
 src/tokenizer/mtl.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 569a094..b34cd71 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -5,7 +5,7 @@ use nom::{
     branch::alt,
     bytes::{is_not, tag, take_till},
     character::{
-        complete::{line_ending, multispace1},
+        complete::{line_ending, multispace1, space1},
         multispace0,
     },
     combinator::map,
@@ -14,11 +14,19 @@ use nom::{
     Parser,
 };
 
-use super::{end_of_number, tag_no_case, Token, TokenSet, TokenizeError};
+use super::{end_of_number, push_token, rest_of_line, tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
         alt((
+            // A material name is the rest of the line, whatever it looks like.
+            map(
+                (
+                    preceded(multispace0(), tag_no_case("newmtl")),
+                    preceded(space1, rest_of_line()),
+                ),
+                |(keyword, name)| Token::Named(Box::new(kw_map(keyword)), name),
+            ),
             delimited(
                 multispace0(),
                 map(
@@ -78,9 +86,7 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
         )),
         Vec::new,
         |mut acc: Vec<Token>, item| {
-            if item != Token::Ignore {
-                acc.push(item);
-            }
+            push_token(&mut acc, item);
             acc
         },
     )
-- 
2.43.0


From ff96b4869e10f6be0fd7c8ecc579391787be8e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 10/23] fix: accept exactly one file name in a map statement

---
 src/material.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/material.rs b/src/material.rs
index 77a726d..aaa5b76 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{map, opt, verify},
     error,
     multi::many1,
     sequence::preceded,
@@ -759,7 +759,17 @@ fn parse_anti_alias_map<'a>(
     )
 }
 
+/// A map names one file. A second word is no option of the map, it is not
+/// understood.
 fn parse_options<'a>(
+) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
+    verify(parse_option_list(), |options: &[OptionElement]| {
+        let is_name = |o: &&OptionElement| matches!(o, OptionElement::FileName(_));
+        options.iter().filter(is_name).count() == 1
+    })
+}
+
+fn parse_option_list<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
     many1(alt((
         parse_option_blend(),
-- 
2.43.0


From 309a422fc9197447342fb16fb5473fe4769f0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 11/23] fix: ignore slashes after which an element has nothing

---
 src/model.rs         | 6 ++++--
 src/tokenizer/mod.rs | 2 ++
 src/tokenizer/obj.rs | 9 ++++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 433f0ae..870d146 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -454,8 +454,9 @@ pub(crate) fn parse_face<'a>(
                         token_match!(Token::Slash),
                         opt(token_match!(Token::Int(_))),
                     )),
+                    opt(token_match!(Token::TrailingSlash)),
                 ),
-                |(v, t, n)| {
+                |(v, t, n, _)| {
                     let v = match get_token_int(&v) {
                         Ok(s) => s,
                         Err(e) => {
@@ -508,8 +509,9 @@ pub(crate) fn parse_line<'a>(
                         token_match!(Token::Slash),
                         opt(token_match!(Token::Int(_))),
                     )),
+                    opt(token_match!(Token::TrailingSlash)),
                 ),
-                |(v, t)| {
+                |(v, t, _)| {
                     let v = match get_token_int(&v) {
                         Ok(s) => s,
                         Err(e) => {
diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 2c968d3..2bf870a 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -40,6 +40,8 @@ pub enum Token<'a> {
     Float(f32),
     Int(i32),
     Slash,
+    /// One or two slashes at the end of an element, with nothing after them
+    TrailingSlash,
 
     // Obj
     /// List of geometric vertices, with (x, y, z [,w]) coordinates, w is
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 18bd8e7..2f6f7b4 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{tag, take_till},
+    bytes::{is_a, tag, take_till},
     character::{
         complete::{line_ending, multispace1, space1},
         multispace0,
@@ -68,6 +68,13 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
+            map(
+                terminated(is_a("/"), end_of_number(" \t\r\n#")),
+                |s: &str| match s.len() {
+                    1 | 2 => Token::TrailingSlash,
+                    _ => Token::String(Cow::Borrowed(s)),
+                },
+            ),
             map(tag("/"), |_| Token::Slash),
             terminated(super::parse_float(), end_of_number(" \t\r\n#/")),
             terminated(super::parse_digit(), end_of_number(" \t\r\n#/")),
-- 
2.43.0


From 2aa1b435fe69be2d2d13da31b16cd7e01394da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 12/23] fix: resolve references which count back from the
 current data

---
 src/model.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 870d146..50b0398 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -214,6 +214,14 @@ pub(crate) enum ModelElement {
     TextureMap(String),
 }
 
+/// Resolves a reference which counts back from the data defined so far.
+fn resolve_index(index: i32, defined: usize) -> i32 {
+    match usize::try_from(index.unsigned_abs()) {
+        Ok(back) if index < 0 && back <= defined => (defined - back + 1) as i32,
+        _ => index,
+    }
+}
+
 pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
     match fold_many0(
         alt((
@@ -245,18 +253,36 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Texture(t) => model.textures.push(t),
                 ModelElement::Face(mut f) => {
                     f.smoothing_group = model.current_smoothing_group;
+                    for e in &mut f.elements {
+                        e.vertex_index = resolve_index(e.vertex_index, model.vertices.len());
+                        e.texture_index = e
+                            .texture_index
+                            .map(|t| resolve_index(t, model.textures.len()));
+                        e.normal_index = e
+                            .normal_index
+                            .map(|n| resolve_index(n, model.normals.len()));
+                    }
                     for g in &model.current_group {
                         let set = model.faces.entry(g.clone()).or_default();
                         set.push(f.clone());
                     }
                 },
-                ModelElement::Line(l) => {
+                ModelElement::Line(mut l) => {
+                    for e in &mut l.elements {
+                        e.vertex_index = resolve_index(e.vertex_index, model.vertices.len());
+                        e.texture_index = e
+                            .texture_index
+                            .map(|t| resolve_index(t, model.textures.len()));
+                    }
                     for g in &model.current_group {
                         let set = model.lines.entry(g.clone()).or_default();
                         set.push(l.clone());
                     }
                 },
-                ModelElement::Point(p) => {
+                ModelElement::Point(mut p) => {
+                    for v in &mut p.elements {
+                        *v = resolve_index(*v, model.vertices.len());
+                    }
                     for g in &model.current_group {
                         let set = model.points.entry(g.clone()).or_default();
                         set.push(p.clone());
-- 
2.43.0


From 70db9f6a591f64c2def4416b13174bf4214fca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 13/23] fix: apply bevel, c_interp, d_interp and lod to the
 current groups

---
 src/model.rs | 54 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 50b0398..5b22c6a 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -308,10 +308,30 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Smoothing(group_id) => {
                     model.current_smoothing_group = group_id;
                 },
-                ModelElement::Bevel(_flag) => {},
-                ModelElement::CInterp(_flag) => {},
-                ModelElement::DInterp(_flag) => {},
-                ModelElement::Lod(_level) => {},
+                ModelElement::Bevel(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.bevel = flag;
+                    }
+                },
+                ModelElement::CInterp(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.c_interp = flag;
+                    }
+                },
+                ModelElement::DInterp(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.d_interp = flag;
+                    }
+                },
+                ModelElement::Lod(level) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.lod = level as u8;
+                    }
+                },
                 ModelElement::ShadowObj(_name) => {},
                 ModelElement::TraceObj(_name) => {},
                 ModelElement::TextureLib(libs) => {
@@ -715,7 +735,7 @@ pub(crate) fn parse_bevel<'a>(
     map(
         preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
+            let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
                 Err(e) => {
                     log::error!("{}", e);
@@ -723,11 +743,7 @@ pub(crate) fn parse_bevel<'a>(
                 },
             };
 
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::Bevel(flag)
-            } else {
-                ModelElement::Bevel(false)
-            }
+            ModelElement::Bevel(res)
         },
     )
 }
@@ -737,7 +753,7 @@ pub(crate) fn parse_c_interp<'a>(
     map(
         preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
+            let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
                 Err(e) => {
                     log::error!("{}", e);
@@ -745,11 +761,7 @@ pub(crate) fn parse_c_interp<'a>(
                 },
             };
 
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::CInterp(flag)
-            } else {
-                ModelElement::CInterp(false)
-            }
+            ModelElement::CInterp(res)
         },
     )
 }
@@ -759,7 +771,7 @@ pub(crate) fn parse_d_interp<'a>(
     map(
         preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
+            let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
                 Err(e) => {
                     log::error!("{}", e);
@@ -767,11 +779,7 @@ pub(crate) fn parse_d_interp<'a>(
                 },
             };
 
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::DInterp(flag)
-            } else {
-                ModelElement::DInterp(false)
-            }
+            ModelElement::DInterp(res)
         },
     )
 }
@@ -779,7 +787,7 @@ pub(crate) fn parse_d_interp<'a>(
 pub(crate) fn parse_lod<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::Lod), token_match!(Token::Int(_))),
+        preceded(token_match!(Token::Lod), token_match!(Token::Int(0..=100))),
         |s| {
             let res = match get_token_int(&s) {
                 Ok(s) => s,
-- 
2.43.0


From 3965b6156e1be595f38a3a85cdde3714a6bc864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 14/23] fix: keep the shadow and trace object file names

---
 src/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 5b22c6a..b5fdca7 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -332,8 +332,8 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                         group.lod = level as u8;
                     }
                 },
-                ModelElement::ShadowObj(_name) => {},
-                ModelElement::TraceObj(_name) => {},
+                ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
+                ModelElement::TraceObj(name) => model.trace_obj = Some(name),
                 ModelElement::TextureLib(libs) => {
                     model.texture_libs.extend(libs);
                 },
-- 
2.43.0


From a2efda6208e2136e48a0629efac873fdaf41c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 15/23] fix: keep the settings of a group which is entered
 again

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index b5fdca7..4d80bb7 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -291,7 +291,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
                     for g in groups {
-                        model.groups.insert(g.clone(), Default::default());
+                        model.groups.entry(g.clone()).or_default();
                         if !model.current_group.contains(&g) {
                             model.current_group.push(g);
                         }
-- 
2.43.0


From 9be29aca6e82c91495dc1ee70f9f6a7da5d6aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:12 +0000
Subject: [PATCH 16/23] fix: reject switch values other than on and off

---
 src/lib.rs      |  4 ++++
 src/material.rs | 11 ++++++-----
 src/model.rs    | 19 ++++++++++++++-----
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ae5e77..90e635a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,3 +216,7 @@ fn get_on_off_from_str(token: &Token) -> Result<bool, ObjError> {
         Err(ObjError::UnexpectedToken(format!("{:#?}", token)))
     }
 }
+
+fn is_on_off(value: &str) -> bool {
+    value.eq_ignore_ascii_case("on") || value.eq_ignore_ascii_case("off")
+}
diff --git a/src/material.rs b/src/material.rs
index aaa5b76..2920ab9 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -2,6 +2,7 @@ use std::result::Result;
 
 use crate::{
     get_on_off_from_str, get_opt_token_float_opt, get_token_float, get_token_int, get_token_string,
+    is_on_off,
     tokenizer::{Token, TokenSet},
 };
 use nom::{
@@ -746,7 +747,7 @@ fn parse_anti_alias_map<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::AntiAliasMap),
-        map(token_match!(Token::String(_)), |o| {
+        map(token_match!(Token::String(ref s) if is_on_off(s)), |o| {
             let val = match get_on_off_from_str(&o) {
                 Ok(v) => v,
                 Err(e) => {
@@ -802,7 +803,7 @@ fn parse_option_blend<'a>(
         map(
             preceded(
                 token_match!(Token::OptionBlendU),
-                token_match!(Token::String(_)),
+                token_match!(Token::String(ref s) if is_on_off(s)),
             ),
             |s| {
                 let val = match get_on_off_from_str(&s) {
@@ -818,7 +819,7 @@ fn parse_option_blend<'a>(
         map(
             preceded(
                 token_match!(Token::OptionBlendV),
-                token_match!(Token::String(_)),
+                token_match!(Token::String(ref s) if is_on_off(s)),
             ),
             |s| {
                 let val = match get_on_off_from_str(&s) {
@@ -859,7 +860,7 @@ fn parse_option_cc<'a>(
     map(
         preceded(
             token_match!(Token::OptionColorCorrect),
-            token_match!(Token::String(_)),
+            token_match!(Token::String(ref s) if is_on_off(s)),
         ),
         |s| {
             let val = match get_on_off_from_str(&s) {
@@ -879,7 +880,7 @@ fn parse_option_clamp<'a>(
     map(
         preceded(
             token_match!(Token::OptionClamp),
-            token_match!(Token::String(_)),
+            token_match!(Token::String(ref s) if is_on_off(s)),
         ),
         |s| {
             let val = match get_on_off_from_str(&s) {
diff --git a/src/model.rs b/src/model.rs
index 4d80bb7..bf2602f 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -3,7 +3,7 @@ use std::{collections::HashMap, result::Result};
 use derive_more::{Constructor, From, Into};
 
 use crate::{
-    get_on_off_from_str, get_token_float, get_token_int, get_token_string,
+    get_on_off_from_str, get_token_float, get_token_int, get_token_string, is_on_off,
     tokenizer::{Token, TokenSet},
 };
 
@@ -700,7 +700,7 @@ pub(crate) fn parse_smoothing<'a>(
             token_match!(Token::Smoothing),
             alt((
                 token_match!(Token::Int(_)),
-                map(token_match!(Token::String(_)), |s| {
+                map(token_match!(Token::String(ref s) if is_on_off(s)), |s| {
                     let val = match get_on_off_from_str(&s) {
                         Ok(v) => v,
                         Err(e) => {
@@ -733,7 +733,10 @@ pub(crate) fn parse_smoothing<'a>(
 pub(crate) fn parse_bevel<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
+        preceded(
+            token_match!(Token::Bevel),
+            token_match!(Token::String(ref s) if is_on_off(s)),
+        ),
         |s| {
             let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
@@ -751,7 +754,10 @@ pub(crate) fn parse_bevel<'a>(
 pub(crate) fn parse_c_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
+        preceded(
+            token_match!(Token::CInterp),
+            token_match!(Token::String(ref s) if is_on_off(s)),
+        ),
         |s| {
             let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
@@ -769,7 +775,10 @@ pub(crate) fn parse_c_interp<'a>(
 pub(crate) fn parse_d_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
+        preceded(
+            token_match!(Token::DInterp),
+            token_match!(Token::String(ref s) if is_on_off(s)),
+        ),
         |s| {
             let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
-- 
2.43.0


From bfcc89dec21a2bc8bd8c4a31c90d6b5c448494d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:13 +0000
Subject: [PATCH 17/23] fix: reject a negative illumination model

---
 src/material.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material.rs b/src/material.rs
index 2920ab9..14b3743 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -640,7 +640,7 @@ fn parse_illumination_model<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::IlluminationModel),
-        map(token_match!(Token::Int(_)), |f| {
+        map(token_match!(Token::Int(0..)), |f| {
             let f = match get_token_int(&f) {
                 Ok(s) => s,
                 Err(e) => {
-- 
2.43.0


From 9a91f32bbd46b0292835c54fd522576c05b6633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 18/23] fix: accept vp statements

---
 src/model.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index bf2602f..8b40f18 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -196,6 +196,7 @@ pub(crate) enum ModelElement {
     Vertex(Vertex),
     Normal(Normal),
     Texture(Texture),
+    VertexParam,
     Face(Face),
     Line(Line),
     Point(Point),
@@ -228,6 +229,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
             map(parse_vertex(), ModelElement::Vertex),
             map(parse_vertex_normal(), ModelElement::Normal),
             map(parse_vertex_texture(), ModelElement::Texture),
+            parse_vertex_param(),
             map(parse_face(), ModelElement::Face),
             map(parse_line(), ModelElement::Line),
             map(parse_point(), ModelElement::Point),
@@ -251,6 +253,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Vertex(x) => model.vertices.push(x),
                 ModelElement::Normal(n) => model.normals.push(n),
                 ModelElement::Texture(t) => model.textures.push(t),
+                ModelElement::VertexParam => {},
                 ModelElement::Face(mut f) => {
                     f.smoothing_group = model.current_smoothing_group;
                     for e in &mut f.elements {
@@ -484,6 +487,23 @@ pub(crate) fn parse_vertex_texture<'a>(
     )
 }
 
+/// Free-form geometry is not part of the model, its control points are accepted
+/// and dropped.
+pub(crate) fn parse_vertex_param<'a>(
+) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
+    map(
+        preceded(
+            token_match!(Token::VertexParam),
+            (
+                token_match!(Token::Float(_) | Token::Int(_)),
+                opt(token_match!(Token::Float(_) | Token::Int(_))),
+                opt(token_match!(Token::Float(_) | Token::Int(_))),
+            ),
+        ),
+        |_| ModelElement::VertexParam,
+    )
+}
+
 pub(crate) fn parse_face<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Face, Error = error::Error<TokenSet<'a>>> {
     preceded(
-- 
2.43.0


From f356c823a7067c64ea3c282116859a1d044bf177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 19/23] fix: usemap off clears the texture map

---
 src/model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 8b40f18..e38eb73 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -343,7 +343,11 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::TextureMap(name) => {
                     for g in &model.current_group {
                         let group = model.groups.entry(g.clone()).or_default();
-                        group.texture_map = Some(name.clone());
+                        group.texture_map = if name.eq_ignore_ascii_case("off") {
+                            None
+                        } else {
+                            Some(name.clone())
+                        };
                     }
                 },
             }
-- 
2.43.0


From 765d1852723b329d94108a309b60e4a927a37253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:17 +0000
Subject: [PATCH 20/23] fix: reject lines which are not one statement

---
 src/lib.rs           |  4 ++--
 src/tokenizer/mod.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 90e635a..778287d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -141,7 +141,7 @@ pub enum ObjError {
 /// Returns a `Result` of either ObjError on parse errors
 /// or a constructed `Model`.
 pub fn load_obj(input: &str) -> Result<Model, ObjError> {
-    match tokenizer::parse_obj(input) {
+    match tokenizer::parse_lines(input, tokenizer::parse_obj) {
         Ok(tokens) => Ok(model::parse(tokens)?),
         Err(e) => Err(e.into()),
     }
@@ -156,7 +156,7 @@ pub fn load_obj(input: &str) -> Result<Model, ObjError> {
 /// Returns a `Result` of either ObjError on parse errors
 /// or a collection of `Material`.
 pub fn load_mtl(input: &str) -> Result<Vec<Material>, ObjError> {
-    match tokenizer::parse_mtl(input) {
+    match tokenizer::parse_lines(input, tokenizer::parse_mtl) {
         Ok(tokens) => Ok(material::parse(tokens)?),
         Err(e) => Err(e.into()),
     }
diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 2bf870a..4d198fd 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -471,6 +471,57 @@ pub enum Token<'a> {
     OptionTextureResolution,
 }
 
+impl Token<'_> {
+    /// Whether the token stands for (a part of) an argument, not for the keyword
+    /// a statement starts with.
+    fn is_argument(&self) -> bool {
+        matches!(
+            self,
+            Token::String(_)
+                | Token::Float(_)
+                | Token::Int(_)
+                | Token::Slash
+                | Token::TrailingSlash
+                | Token::Spectral
+                | Token::Xyz
+                | Token::Halo
+                | Token::ReflectionType
+                | Token::OptionBlendU
+                | Token::OptionBlendV
+                | Token::OptionBumpMultiplier
+                | Token::OptionBoost
+                | Token::OptionColorCorrect
+                | Token::OptionClamp
+                | Token::OptionIMFChan
+                | Token::OptionRange
+                | Token::OptionOffset
+                | Token::OptionScale
+                | Token::OptionTurbulence
+                | Token::OptionTextureResolution
+        )
+    }
+}
+
+/// Tokenizes a text line by line. The tokens do not tell where a line ends, so
+/// it is checked here that each line is one statement: a keyword followed by
+/// arguments.
+pub fn parse_lines<'a>(
+    input: &'a str,
+    parse_line: fn(&'a str) -> Result<TokenSet<'a>, TokenizeError>,
+) -> Result<TokenSet<'a>, TokenizeError> {
+    let mut tokens = Vec::new();
+    for line in input.split(['\n', '\r']) {
+        let statement = parse_line(line)?;
+        if let Some((keyword, arguments)) = statement.as_ref().split_first() {
+            if keyword.is_argument() || !arguments.iter().all(Token::is_argument) {
+                return Err(TokenizeError::Parse(format!("Not a statement: `{line}`")));
+            }
+        }
+        tokens.extend_from_slice(statement.as_ref());
+    }
+    Ok(tokens.into())
+}
+
 /// A range of a shared token sequence. The parsers clone and split their input
 /// for every token and every alternative, so neither may copy the tokens.
 #[derive(Clone)]
-- 
2.43.0


From 8d0411302ed53b742dab0ee18c1f1ed764cab24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 21/23] fix: look at the end of a number or element in constant
 time

---
 src/tokenizer/mod.rs |  7 ++-----
 src/tokenizer/obj.rs | 10 ++++------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 4d198fd..e0d51c8 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -14,7 +14,7 @@ pub use mtl::parse_mtl;
 use nom::{
     branch::alt,
     bytes::complete::{self, tag},
-    character::complete::digit1,
+    character::complete::{digit1, one_of},
     combinator::{eof, map, map_opt, opt, peek},
     error::{Error, ErrorKind},
     multi::fold_many1,
@@ -673,10 +673,7 @@ fn rest_of_line<'a>() -> impl Parser<&'a str, Output = &'a str, Error = Error<&'
 fn end_of_number<'a>(
     delimiters: &'static str,
 ) -> impl Parser<&'a str, Output = (), Error = Error<&'a str>> {
-    peek(alt((
-        map(complete::is_a(delimiters), |_| ()),
-        map(eof, |_| ()),
-    )))
+    peek(alt((map(one_of(delimiters), |_| ()), map(eof, |_| ()))))
 }
 
 /// Adds a token to the sequence handed to the parsers.
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 2f6f7b4..8686360 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{is_a, tag, take_till},
+    bytes::{tag, take_till},
     character::{
         complete::{line_ending, multispace1, space1},
         multispace0,
@@ -68,12 +68,10 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
+            map(tag("///"), |s: &str| Token::String(Cow::Borrowed(s))),
             map(
-                terminated(is_a("/"), end_of_number(" \t\r\n#")),
-                |s: &str| match s.len() {
-                    1 | 2 => Token::TrailingSlash,
-                    _ => Token::String(Cow::Borrowed(s)),
-                },
+                terminated(alt((tag("//"), tag("/"))), end_of_number(" \t\r\n#")),
+                |_| Token::TrailingSlash,
             ),
             map(tag("/"), |_| Token::Slash),
             terminated(super::parse_float(), end_of_number(" \t\r\n#/")),
-- 
2.43.0


From 8fd00d8dbf1268e153365ea63ab98281f5162234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 22/23] fix: look for repeated names of a group statement in
 linear time

---
 src/model.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index e38eb73..e2279a4 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, result::Result};
+use std::{
+    collections::{HashMap, HashSet},
+    result::Result,
+};
 
 use derive_more::{Constructor, From, Into};
 
@@ -293,9 +296,10 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 },
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
+                    let mut seen = HashSet::new();
                     for g in groups {
                         model.groups.entry(g.clone()).or_default();
-                        if !model.current_group.contains(&g) {
+                        if seen.insert(g.clone()) {
                             model.current_group.push(g);
                         }
                     }
-- 
2.43.0


From 17eecb6d00d2ffa635290011158e7a07301dda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 23/23] fix: recognise a keyword that ends the text in MTL

---
 src/tokenizer/mtl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index b34cd71..0cb0056 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -8,7 +8,7 @@ use nom::{
         complete::{line_ending, multispace1, space1},
         multispace0,
     },
-    combinator::map,
+    combinator::{eof, map},
     multi::fold_many0,
     sequence::{delimited, preceded, terminated},
     Parser,
@@ -73,7 +73,10 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                     ]),
                     kw_map,
                 ),
-                map(multispace1, |_| Token::Ignore),
+                alt((
+                    map(multispace1, |_| Token::Ignore),
+                    map(eof, |_| Token::Ignore),
+                )),
             ),
             terminated(super::parse_float(), end_of_number(" \t\r\n#")),
             terminated(super::parse_digit(), end_of_number(" \t\r\n#")),
-- 
2.43.0

