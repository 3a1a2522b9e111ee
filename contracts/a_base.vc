//# functions and impls outside the verifier's reach, with the reason
@skipimpl property::<AnyProperty as Eq>
@skipimpl date_time::<DateTime as Display>
@fn date_time::DateTime::now_utc
@skip
@fn escape_control
@trusted
@module parser
impl Token {
    pub fn lexer<'a>(s: &'a str) -> (r: Lexer<'a, Token>) ensures r.ok(), r.src() == s@, r.st() == 0, r.en() == 0 { Lexer::vx_lexer(s) }
}
