// ---- the modules built into Node.js 16, as its module.builtinModules lists them ----
pub open spec fn built_in(s: Seq<char>) -> bool {
(s.len() == 11 && s[0] == '_' && s[1] == 'h' && s[2] == 't' && s[3] == 't' && s[4] == 'p' && s[5] == '_' && s[6] == 'a' && s[7] == 'g' && s[8] == 'e' && s[9] == 'n' && s[10] == 't')
 || (s.len() == 12 && s[0] == '_' && s[1] == 'h' && s[2] == 't' && s[3] == 't' && s[4] == 'p' && s[5] == '_' && s[6] == 'c' && s[7] == 'l' && s[8] == 'i' && s[9] == 'e' && s[10] == 'n' && s[11] == 't')
 || (s.len() == 12 && s[0] == '_' && s[1] == 'h' && s[2] == 't' && s[3] == 't' && s[4] == 'p' && s[5] == '_' && s[6] == 'c' && s[7] == 'o' && s[8] == 'm' && s[9] == 'm' && s[10] == 'o' && s[11] == 'n')
 || (s.len() == 14 && s[0] == '_' && s[1] == 'h' && s[2] == 't' && s[3] == 't' && s[4] == 'p' && s[5] == '_' && s[6] == 'i' && s[7] == 'n' && s[8] == 'c' && s[9] == 'o' && s[10] == 'm' && s[11] == 'i' && s[12] == 'n' && s[13] == 'g')
 || (s.len() == 14 && s[0] == '_' && s[1] == 'h' && s[2] == 't' && s[3] == 't' && s[4] == 'p' && s[5] == '_' && s[6] == 'o' && s[7] == 'u' && s[8] == 't' && s[9] == 'g' && s[10] == 'o' && s[11] == 'i' && s[12] == 'n' && s[13] == 'g')
 || (s.len() == 12 && s[0] == '_' && s[1] == 'h' && s[2] == 't' && s[3] == 't' && s[4] == 'p' && s[5] == '_' && s[6] == 's' && s[7] == 'e' && s[8] == 'r' && s[9] == 'v' && s[10] == 'e' && s[11] == 'r')
 || (s.len() == 14 && s[0] == '_' && s[1] == 's' && s[2] == 't' && s[3] == 'r' && s[4] == 'e' && s[5] == 'a' && s[6] == 'm' && s[7] == '_' && s[8] == 'd' && s[9] == 'u' && s[10] == 'p' && s[11] == 'l' && s[12] == 'e' && s[13] == 'x')
 || (s.len() == 19 && s[0] == '_' && s[1] == 's' && s[2] == 't' && s[3] == 'r' && s[4] == 'e' && s[5] == 'a' && s[6] == 'm' && s[7] == '_' && s[8] == 'p' && s[9] == 'a' && s[10] == 's' && s[11] == 's' && s[12] == 't' && s[13] == 'h' && s[14] == 'r' && s[15] == 'o' && s[16] == 'u' && s[17] == 'g' && s[18] == 'h')
 || (s.len() == 16 && s[0] == '_' && s[1] == 's' && s[2] == 't' && s[3] == 'r' && s[4] == 'e' && s[5] == 'a' && s[6] == 'm' && s[7] == '_' && s[8] == 'r' && s[9] == 'e' && s[10] == 'a' && s[11] == 'd' && s[12] == 'a' && s[13] == 'b' && s[14] == 'l' && s[15] == 'e')
 || (s.len() == 17 && s[0] == '_' && s[1] == 's' && s[2] == 't' && s[3] == 'r' && s[4] == 'e' && s[5] == 'a' && s[6] == 'm' && s[7] == '_' && s[8] == 't' && s[9] == 'r' && s[10] == 'a' && s[11] == 'n' && s[12] == 's' && s[13] == 'f' && s[14] == 'o' && s[15] == 'r' && s[16] == 'm')
 || (s.len() == 12 && s[0] == '_' && s[1] == 's' && s[2] == 't' && s[3] == 'r' && s[4] == 'e' && s[5] == 'a' && s[6] == 'm' && s[7] == '_' && s[8] == 'w' && s[9] == 'r' && s[10] == 'a' && s[11] == 'p')
 || (s.len() == 16 && s[0] == '_' && s[1] == 's' && s[2] == 't' && s[3] == 'r' && s[4] == 'e' && s[5] == 'a' && s[6] == 'm' && s[7] == '_' && s[8] == 'w' && s[9] == 'r' && s[10] == 'i' && s[11] == 't' && s[12] == 'a' && s[13] == 'b' && s[14] == 'l' && s[15] == 'e')
 || (s.len() == 11 && s[0] == '_' && s[1] == 't' && s[2] == 'l' && s[3] == 's' && s[4] == '_' && s[5] == 'c' && s[6] == 'o' && s[7] == 'm' && s[8] == 'm' && s[9] == 'o' && s[10] == 'n')
 || (s.len() == 9 && s[0] == '_' && s[1] == 't' && s[2] == 'l' && s[3] == 's' && s[4] == '_' && s[5] == 'w' && s[6] == 'r' && s[7] == 'a' && s[8] == 'p')
 || (s.len() == 6 && s[0] == 'a' && s[1] == 's' && s[2] == 's' && s[3] == 'e' && s[4] == 'r' && s[5] == 't')
 || (s.len() == 13 && s[0] == 'a' && s[1] == 's' && s[2] == 's' && s[3] == 'e' && s[4] == 'r' && s[5] == 't' && s[6] == '/' && s[7] == 's' && s[8] == 't' && s[9] == 'r' && s[10] == 'i' && s[11] == 'c' && s[12] == 't')
 || (s.len() == 11 && s[0] == 'a' && s[1] == 's' && s[2] == 'y' && s[3] == 'n' && s[4] == 'c' && s[5] == '_' && s[6] == 'h' && s[7] == 'o' && s[8] == 'o' && s[9] == 'k' && s[10] == 's')
 || (s.len() == 6 && s[0] == 'b' && s[1] == 'u' && s[2] == 'f' && s[3] == 'f' && s[4] == 'e' && s[5] == 'r')
 || (s.len() == 13 && s[0] == 'c' && s[1] == 'h' && s[2] == 'i' && s[3] == 'l' && s[4] == 'd' && s[5] == '_' && s[6] == 'p' && s[7] == 'r' && s[8] == 'o' && s[9] == 'c' && s[10] == 'e' && s[11] == 's' && s[12] == 's')
 || (s.len() == 7 && s[0] == 'c' && s[1] == 'l' && s[2] == 'u' && s[3] == 's' && s[4] == 't' && s[5] == 'e' && s[6] == 'r')
 || (s.len() == 7 && s[0] == 'c' && s[1] == 'o' && s[2] == 'n' && s[3] == 's' && s[4] == 'o' && s[5] == 'l' && s[6] == 'e')
 || (s.len() == 9 && s[0] == 'c' && s[1] == 'o' && s[2] == 'n' && s[3] == 's' && s[4] == 't' && s[5] == 'a' && s[6] == 'n' && s[7] == 't' && s[8] == 's')
 || (s.len() == 6 && s[0] == 'c' && s[1] == 'r' && s[2] == 'y' && s[3] == 'p' && s[4] == 't' && s[5] == 'o')
 || (s.len() == 5 && s[0] == 'd' && s[1] == 'g' && s[2] == 'r' && s[3] == 'a' && s[4] == 'm')
 || (s.len() == 19 && s[0] == 'd' && s[1] == 'i' && s[2] == 'a' && s[3] == 'g' && s[4] == 'n' && s[5] == 'o' && s[6] == 's' && s[7] == 't' && s[8] == 'i' && s[9] == 'c' && s[10] == 's' && s[11] == '_' && s[12] == 'c' && s[13] == 'h' && s[14] == 'a' && s[15] == 'n' && s[16] == 'n' && s[17] == 'e' && s[18] == 'l')
 || (s.len() == 3 && s[0] == 'd' && s[1] == 'n' && s[2] == 's')
 || (s.len() == 12 && s[0] == 'd' && s[1] == 'n' && s[2] == 's' && s[3] == '/' && s[4] == 'p' && s[5] == 'r' && s[6] == 'o' && s[7] == 'm' && s[8] == 'i' && s[9] == 's' && s[10] == 'e' && s[11] == 's')
 || (s.len() == 6 && s[0] == 'd' && s[1] == 'o' && s[2] == 'm' && s[3] == 'a' && s[4] == 'i' && s[5] == 'n')
 || (s.len() == 6 && s[0] == 'e' && s[1] == 'v' && s[2] == 'e' && s[3] == 'n' && s[4] == 't' && s[5] == 's')
 || (s.len() == 2 && s[0] == 'f' && s[1] == 's')
 || (s.len() == 11 && s[0] == 'f' && s[1] == 's' && s[2] == '/' && s[3] == 'p' && s[4] == 'r' && s[5] == 'o' && s[6] == 'm' && s[7] == 'i' && s[8] == 's' && s[9] == 'e' && s[10] == 's')
 || (s.len() == 4 && s[0] == 'h' && s[1] == 't' && s[2] == 't' && s[3] == 'p')
 || (s.len() == 5 && s[0] == 'h' && s[1] == 't' && s[2] == 't' && s[3] == 'p' && s[4] == '2')
 || (s.len() == 5 && s[0] == 'h' && s[1] == 't' && s[2] == 't' && s[3] == 'p' && s[4] == 's')
 || (s.len() == 9 && s[0] == 'i' && s[1] == 'n' && s[2] == 's' && s[3] == 'p' && s[4] == 'e' && s[5] == 'c' && s[6] == 't' && s[7] == 'o' && s[8] == 'r')
 || (s.len() == 6 && s[0] == 'm' && s[1] == 'o' && s[2] == 'd' && s[3] == 'u' && s[4] == 'l' && s[5] == 'e')
 || (s.len() == 3 && s[0] == 'n' && s[1] == 'e' && s[2] == 't')
 || (s.len() == 2 && s[0] == 'o' && s[1] == 's')
 || (s.len() == 4 && s[0] == 'p' && s[1] == 'a' && s[2] == 't' && s[3] == 'h')
 || (s.len() == 10 && s[0] == 'p' && s[1] == 'a' && s[2] == 't' && s[3] == 'h' && s[4] == '/' && s[5] == 'p' && s[6] == 'o' && s[7] == 's' && s[8] == 'i' && s[9] == 'x')
 || (s.len() == 10 && s[0] == 'p' && s[1] == 'a' && s[2] == 't' && s[3] == 'h' && s[4] == '/' && s[5] == 'w' && s[6] == 'i' && s[7] == 'n' && s[8] == '3' && s[9] == '2')
 || (s.len() == 10 && s[0] == 'p' && s[1] == 'e' && s[2] == 'r' && s[3] == 'f' && s[4] == '_' && s[5] == 'h' && s[6] == 'o' && s[7] == 'o' && s[8] == 'k' && s[9] == 's')
 || (s.len() == 7 && s[0] == 'p' && s[1] == 'r' && s[2] == 'o' && s[3] == 'c' && s[4] == 'e' && s[5] == 's' && s[6] == 's')
 || (s.len() == 8 && s[0] == 'p' && s[1] == 'u' && s[2] == 'n' && s[3] == 'y' && s[4] == 'c' && s[5] == 'o' && s[6] == 'd' && s[7] == 'e')
 || (s.len() == 11 && s[0] == 'q' && s[1] == 'u' && s[2] == 'e' && s[3] == 'r' && s[4] == 'y' && s[5] == 's' && s[6] == 't' && s[7] == 'r' && s[8] == 'i' && s[9] == 'n' && s[10] == 'g')
 || (s.len() == 8 && s[0] == 'r' && s[1] == 'e' && s[2] == 'a' && s[3] == 'd' && s[4] == 'l' && s[5] == 'i' && s[6] == 'n' && s[7] == 'e')
 || (s.len() == 4 && s[0] == 'r' && s[1] == 'e' && s[2] == 'p' && s[3] == 'l')
 || (s.len() == 6 && s[0] == 's' && s[1] == 't' && s[2] == 'r' && s[3] == 'e' && s[4] == 'a' && s[5] == 'm')
 || (s.len() == 16 && s[0] == 's' && s[1] == 't' && s[2] == 'r' && s[3] == 'e' && s[4] == 'a' && s[5] == 'm' && s[6] == '/' && s[7] == 'c' && s[8] == 'o' && s[9] == 'n' && s[10] == 's' && s[11] == 'u' && s[12] == 'm' && s[13] == 'e' && s[14] == 'r' && s[15] == 's')
 || (s.len() == 15 && s[0] == 's' && s[1] == 't' && s[2] == 'r' && s[3] == 'e' && s[4] == 'a' && s[5] == 'm' && s[6] == '/' && s[7] == 'p' && s[8] == 'r' && s[9] == 'o' && s[10] == 'm' && s[11] == 'i' && s[12] == 's' && s[13] == 'e' && s[14] == 's')
 || (s.len() == 10 && s[0] == 's' && s[1] == 't' && s[2] == 'r' && s[3] == 'e' && s[4] == 'a' && s[5] == 'm' && s[6] == '/' && s[7] == 'w' && s[8] == 'e' && s[9] == 'b')
 || (s.len() == 14 && s[0] == 's' && s[1] == 't' && s[2] == 'r' && s[3] == 'i' && s[4] == 'n' && s[5] == 'g' && s[6] == '_' && s[7] == 'd' && s[8] == 'e' && s[9] == 'c' && s[10] == 'o' && s[11] == 'd' && s[12] == 'e' && s[13] == 'r')
 || (s.len() == 3 && s[0] == 's' && s[1] == 'y' && s[2] == 's')
 || (s.len() == 6 && s[0] == 't' && s[1] == 'i' && s[2] == 'm' && s[3] == 'e' && s[4] == 'r' && s[5] == 's')
 || (s.len() == 15 && s[0] == 't' && s[1] == 'i' && s[2] == 'm' && s[3] == 'e' && s[4] == 'r' && s[5] == 's' && s[6] == '/' && s[7] == 'p' && s[8] == 'r' && s[9] == 'o' && s[10] == 'm' && s[11] == 'i' && s[12] == 's' && s[13] == 'e' && s[14] == 's')
 || (s.len() == 3 && s[0] == 't' && s[1] == 'l' && s[2] == 's')
 || (s.len() == 12 && s[0] == 't' && s[1] == 'r' && s[2] == 'a' && s[3] == 'c' && s[4] == 'e' && s[5] == '_' && s[6] == 'e' && s[7] == 'v' && s[8] == 'e' && s[9] == 'n' && s[10] == 't' && s[11] == 's')
 || (s.len() == 3 && s[0] == 't' && s[1] == 't' && s[2] == 'y')
 || (s.len() == 3 && s[0] == 'u' && s[1] == 'r' && s[2] == 'l')
 || (s.len() == 4 && s[0] == 'u' && s[1] == 't' && s[2] == 'i' && s[3] == 'l')
 || (s.len() == 10 && s[0] == 'u' && s[1] == 't' && s[2] == 'i' && s[3] == 'l' && s[4] == '/' && s[5] == 't' && s[6] == 'y' && s[7] == 'p' && s[8] == 'e' && s[9] == 's')
 || (s.len() == 2 && s[0] == 'v' && s[1] == '8')
 || (s.len() == 2 && s[0] == 'v' && s[1] == 'm')
 || (s.len() == 4 && s[0] == 'w' && s[1] == 'a' && s[2] == 's' && s[3] == 'i')
 || (s.len() == 14 && s[0] == 'w' && s[1] == 'o' && s[2] == 'r' && s[3] == 'k' && s[4] == 'e' && s[5] == 'r' && s[6] == '_' && s[7] == 't' && s[8] == 'h' && s[9] == 'r' && s[10] == 'e' && s[11] == 'a' && s[12] == 'd' && s[13] == 's')
 || (s.len() == 4 && s[0] == 'z' && s[1] == 'l' && s[2] == 'i' && s[3] == 'b')
}
