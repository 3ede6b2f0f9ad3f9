//! The generic entry points of the library, instantiated in a crate that is compiled with the same
//! instrumentation as the library itself (generic code is compiled where it is used).

use actiondb::matcher::pattern::PatternSource;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{BuildError, FromPatternSource, MatcherFactory, PatternLoader};

pub type Trie = <TrieMatcherFactory as MatcherFactory>::Matcher;
pub type Array = <SuffixArrayMatcherFactory as MatcherFactory>::Matcher;

#[inline(never)]
pub fn trie_from_file(f: &str) -> Result<Trie, BuildError> {
    PatternLoader::from_file::<TrieMatcherFactory>(f)
}
#[inline(never)]
pub fn array_from_file(f: &str) -> Result<Array, BuildError> {
    PatternLoader::from_file::<SuffixArrayMatcherFactory>(f)
}
#[inline(never)]
pub fn trie_from_file_ignore_errors(f: &str) -> Result<Trie, BuildError> {
    PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(f)
}
#[inline(never)]
pub fn array_from_file_ignore_errors(f: &str) -> Result<Array, BuildError> {
    PatternLoader::from_file_ignore_errors::<SuffixArrayMatcherFactory>(f)
}
#[inline(never)]
pub fn trie_from_source(s: &mut PatternSource) -> Result<Trie, BuildError> {
    Trie::from_source::<TrieMatcherFactory>(s)
}
#[inline(never)]
pub fn array_from_source(s: &mut PatternSource) -> Result<Array, BuildError> {
    Array::from_source::<SuffixArrayMatcherFactory>(s)
}
#[inline(never)]
pub fn trie_from_source_ignore_errors(s: &mut PatternSource) -> Trie {
    Trie::from_source_ignore_errors::<TrieMatcherFactory>(s)
}
#[inline(never)]
pub fn array_from_source_ignore_errors(s: &mut PatternSource) -> Array {
    Array::from_source_ignore_errors::<SuffixArrayMatcherFactory>(s)
}
