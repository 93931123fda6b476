//! A language test for the interpreter: constructs a rewrite of the contracts
//! could plausibly use, with the values the Solidity 0.6 rules give.
use sol::*;
const SRC: &str = r#"
pragma solidity ^0.6.4;
pragma experimental ABIEncoderV2;
interface Ext { function twice(uint x) external view returns (uint); }
library L {
    struct P { uint256 a; uint256[] b; bytes32 c; }
    function inc(uint256 x) internal pure returns (uint256 y) { y = x + 1; }
    function sum(uint256[] memory xs) internal pure returns (uint256 acc) {
        for (uint256 i; i < xs.length; ++i) acc += xs[i];
    }
    function set(P memory p, uint256 v) internal pure { p.a = v; p.b[0] = v + 1; }
}
abstract contract A {
    using L for uint256;
    using L for uint256[];
    using L for L.P;
    uint256 internal constant K = 2**10 - 1;
    uint256 constant MASK = ~uint256(0);
    bytes32 constant H = keccak256("abc");
    enum Mode { None, One, Two }
    function virt(uint x) internal virtual pure returns (uint) { return x; }
    modifier pos(uint x) { require(x > 0, "pos"); _; }
}
contract T is A, Ext {
    uint256 store = 5;
    uint256 public pub = 77;
    event E(uint256 indexed x, bytes y);
    constructor() public { store += 1; }
    function virt(uint x) internal override pure returns (uint) { return super.virt(x) * 2; }
    function twice(uint x) external override view returns (uint) { return x * 2; }
    function t1() public view returns (uint) { return uint(7).inc(); }
    function t2() public pure returns (uint s) { uint256[] memory q = new uint256[](3); q[0] = 1; q[1] = 2; q[2] = 3; s = q.sum(); }
    function t3() public pure returns (uint) { uint i = 0; uint s = 0; while (true) { i++; if (i == 3) continue; if (i > 5) break; s += i; } return s; }
    function t4() public pure returns (uint) { uint i; do { i += 2; } while (i < 7); return i; }
    function t5() public pure returns (uint, uint) { (uint a, uint b) = pair(); (a, b) = (b, a); return (a, b); }
    function pair() internal pure returns (uint x, uint y) { x = 1; y = 2; }
    function t6(uint x) public pure returns (uint) { return x > 3 ? x - 3 : x == 0 ? 9 : 1; }
    function t7() public pure returns (uint) { L.P memory p = L.P({a: 1, b: new uint256[](2), c: H}); p.set(10); return p.a * 100 + p.b[0]; }
    function t8() public pure returns (uint) { uint8 x = 250; x += 10; return x; }
    function t9() public pure returns (uint) { return uint(uint8(uint256(0x1ff))); }
    function t10() public pure returns (uint) { bytes memory b = abi.encodePacked(uint8(1), uint16(0x0203), bytes4(0x04050607)); return b.length * 256 + uint8(b[2]); }
    function t11() public pure returns (bytes32) { return keccak256(abi.encodePacked(uint256(1), uint256(2))); }
    function t12() public pure returns (uint r) { assembly { let a := 5 for { let i := 0 } lt(i, 4) { i := add(i, 1) } { if eq(i, 2) { continue } a := add(a, i) } switch a case 9 { r := 1 } default { r := a } } }
    function t13() public pure returns (uint r) { assembly { function f(x, y) -> z { if gt(x, y) { z := sub(x, y) leave } z := 99 } r := add(f(5, 3), f(1, 2)) } }
    function t14() public view pos(1) returns (uint) { return store; }
    function t15() public pos(0) returns (uint) { return store; }
    function t17() public view returns (uint) { return this.twice(21); }
    function t18() public pure returns (uint) { return K + (MASK & 1) + uint(Mode.Two); }
    function t19() public pure returns (uint) { return virt(4); }
    function t20() public pure returns (int) { int x = -7; return x / 2 + x % 3; }
    function t21() public pure returns (uint) { uint256[3] memory a = [uint256(1), 2, 3]; uint s = 0; for (uint i = a.length; i > 0; i--) { s = s * 10 + a[i - 1]; } return s; }
    function t22() public pure returns (bool) { return !(true && false) || (1 == 2); }
    function t23() public pure returns (uint) { uint x = 1; { uint y = 5; x += y; } { uint y = 6; x += y; } return x; }
    function t24() public pure returns (uint) { uint x = 0xff; x <<= 4; x |= 1; x ^= 2; x >>= 1; x &= 0xfff; x %= 1000; return x; }
    function t25() public pure returns (uint) { if (false) {} else if (true) return 4; return 5; }
    function t26() public returns (uint) { emit E(1, "x"); delete store; return store; }
    function t27() public pure returns (uint) { bytes32 b = bytes32(uint256(0x0102)); return uint8(b[31]) + uint256(b >> 8) ; }
    function t28(uint[] calldata x) external pure returns (uint) { return x[1] + x.length; }
    function t29(bytes calldata x) external pure returns (uint) { return abi.decode(x, (uint)); }
    function t31() public pure { revert("no"); }
    function t32() public pure { assert(1 > 2); }
    function t33() public pure { uint[] memory a = new uint[](1); a[1] = 2; }
    function t34() public pure returns (uint) { return addmod(5, 6, 7) + mulmod(5, 6, 7) + 2 ** 3; }
    function t35() public pure returns (uint) { uint a; uint b; a = b = 4; return a++ + ++b; }
    function t37() public pure returns (uint) { L.P[] memory ps = new L.P[](2); ps[1].a = 3; L.P memory q = ps[1]; q.a += 1; return ps[1].a; }
    function t38() public pure returns (uint) { return f(true) + f(false); }
    function f(bool b) private pure returns (uint) { return b ? 1 : 2; }
    function f(uint x, uint y) private pure returns (uint) { return x - y; }
    function f2(uint x, uint y) internal pure returns (uint) { return x - y; }
    function t40() public pure returns (uint) { (, uint b) = pair(); return b; }
    function t41() public pure returns (uint) { uint u = uint(-1); return u + 2; }
    function t42() public pure returns (uint) { return L.inc({x: 4}); }
    function t43(uint8 x) public pure returns (uint) { return uint(x) << 1; }
    function t44() public pure returns (uint r) { uint[2][] memory z = new uint[2][](2); z[1][1] = 5; r = z[1][1] + z.length; }
    function t45() public pure returns (uint r) { bytes memory b = new bytes(40); assembly { mstore(add(b, 0x20), 0x55) r := mload(add(b, 32)) r := add(r, mload(b)) } }
    function t46() public pure returns (bytes memory) { bytes memory b = hex"0102"; b[0] = 0x07; return b; }
    function t47() public pure returns (uint) { uint s; for (uint i = 0; i < 10; i += 3) { if (i == 6) { continue; } s += i; } return s; }
    function t48() public pure returns (uint r) { uint len = 3; uint[] memory x = new uint[](len); for (uint i = 0; i < x.length; i++) { x[i] = i * i; } for (uint i = 0; i < len; i++) r += x[i]; }
}
"#;
fn u(n: u64) -> V { V::W(n.into()) }
fn main() {
    let m = Machine::new(parse(SRC).expect("parse"));
    let a = m.deploy("T", &[]).expect("deploy");
    let ok: &[(&str, Vec<V>, u64)] = &[
        ("t1", vec![], 8), ("t2", vec![], 6), ("t3", vec![], 12), ("t4", vec![], 8), ("t6", vec![u(5)], 2), ("t6", vec![u(0)], 9), ("t6", vec![u(1)], 1),
        ("t7", vec![], 1011), ("t8", vec![], 4), ("t9", vec![], 255), ("t10", vec![], 7 * 256 + 3), ("t12", vec![], 1), ("t13", vec![], 101), ("t14", vec![], 6),
        ("t17", vec![], 42), ("t18", vec![], 1023 + 1 + 2), ("t19", vec![], 8), ("t21", vec![], 321), ("t23", vec![], 12),
        ("t24", vec![], ((0xff1 ^ 2) >> 1) % 1000), ("t25", vec![], 4), ("t27", vec![], 3), ("t28", vec![V::L(vec![u(1), u(9)])], 11),
        ("t34", vec![], 4 + 2 + 8), ("t35", vec![], 9), ("t37", vec![], 4), ("t38", vec![], 3), ("t40", vec![], 2), ("t41", vec![], 1), ("t42", vec![], 5), ("t43", vec![u(200)], 400),
        ("t44", vec![], 7), ("t45", vec![], 0x55 + 40), ("t47", vec![], 12), ("t48", vec![], 5),  ("t26", vec![], 0),
    ];
    let mut bad = 0;
    for (n, args, want) in ok {
        match m.call(a, n, args) {
            Ok(r) if format!("{:?}", r) == format!("{:?}", vec![u(*want)]) => {}
            r => { bad += 1; println!("{}: {:?}, want {}", n, r, want) }
        }
    }
    for n in &["t15", "t31", "t32", "t33"] {
        println!("{}: {:?}", n, m.call(a, n, &[]));
    }
    for n in &["t5", "t11", "t20", "t22", "t46"] {
        println!("{}: {:?}", n, m.call(a, n, &[]));
    }
    println!("{} bad", bad);
    assert_eq!(bad, 0);
}
