// @generated by tools/gen_ops.py from the public API of the crate under test; do not edit.
use crate::fmt::*;
use yuv::*;

#[derive(Clone, Copy)]
pub enum Call {
    C0(fn(&YuvBiPlanarImage<u16>, &mut [u8], u32, YuvRange, YuvStandardMatrix, YuvConversionMode) -> Result<(), YuvError>),
    C1(fn(&YuvBiPlanarImage<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C2(fn(&YuvBiPlanarImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix, YuvConversionMode) -> Result<(), YuvError>),
    C3(fn(&mut YuvBiPlanarImageMut<u8>, &[u8], u32, YuvRange, YuvStandardMatrix, YuvConversionMode) -> Result<(), YuvError>),
    C4(fn(&YuvPlanarImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C5(fn(&mut YuvPlanarImageMut<u8>, &[u8], u32, YuvRange, YuvStandardMatrix, YuvConversionMode) -> Result<(), YuvError>),
    C6(fn(&mut YuvPlanarImageMut<u16>, &[u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C7(fn(&YuvPlanarImageWithAlpha<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix, bool) -> Result<(), YuvError>),
    C8(fn(&mut YuvGrayImageMut<u8>, &[u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C9(fn(&YuvGrayImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C10(fn(&YuvPlanarImage<u16>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C11(fn(&mut YuvPlanarImageMut<u8>, &[u8], u32, YuvRange) -> Result<(), YuvError>),
    C12(fn(&YuvPlanarImage<u8>, &mut [u8], u32, YuvRange) -> Result<(), YuvError>),
    C13(fn(&YuvPlanarImage<u16>, &mut [u16], u32, YuvRange) -> Result<(), YuvError>),
    C14(fn(&YuvPlanarImageWithAlpha<u8>, &mut [u8], u32, YuvRange) -> Result<(), YuvError>),
    C15(fn(&YuvPlanarImageWithAlpha<u16>, &mut [u16], u32, YuvRange) -> Result<(), YuvError>),
    C16(fn(&mut YuvPackedImageMut<u8>, &YuvPlanarImage<u8>) -> Result<(), YuvError>),
    C17(fn(&mut YuvPlanarImageMut<u8>, &YuvPackedImage<u8>) -> Result<(), YuvError>),
    C18(fn(&mut YuvPlanarImageMut<u16>, &[u16], u32, YuvRange) -> Result<(), YuvError>),
    C19(fn(&mut YuvBiPlanarImageMut<u16>, &[u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C20(fn(&YuvPackedImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C21(fn(&mut YuvPlanarImageMut<u16>, &YuvPackedImage<u16>) -> Result<(), YuvError>),
    C22(fn(&mut YuvPackedImageMut<u16>, &YuvPlanarImage<u16>) -> Result<(), YuvError>),
    C23(fn(&YuvPackedImage<u16>, &mut [u16], u32, u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C24(fn(&mut YuvPlanarImageMut<u8>, &[u8], u32, YuvRange, YuvStandardMatrix, SharpYuvGammaTransfer) -> Result<(), YuvError>),
    C25(fn(&YuvPlanarImage<u16>, &mut [f16], u32, YuvRange) -> Result<(), YuvError>),
    C26(fn(&YuvPlanarImageWithAlpha<u16>, &mut [f16], u32, YuvRange) -> Result<(), YuvError>),
    C27(fn(&YuvGrayImage<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C28(fn(&YuvGrayAlphaImage<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C29(fn(&YuvGrayAlphaImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C30(fn(&YuvPlanarImageWithAlpha<u16>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C31(fn(&YuvPlanarImageWithAlpha<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C32(fn(&YuvPlanarImage<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C33(fn(&YuvPlanarImageWithAlpha<u16>, &mut [f16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C34(fn(&[u8], u32, Rgb30ByteOrder, &mut [u8], u32, u32, u32) -> Result<(), YuvError>),
    C35(fn(&[u16], usize, &mut [f16], usize, usize, usize, usize) -> Result<(), YuvError>),
    C36(fn(&[f16], usize, &mut [u8], usize, usize, usize) -> Result<(), YuvError>),
    C37(fn(&[f16], usize, &mut [u16], usize, usize, usize, usize) -> Result<(), YuvError>),
    C38(fn(&[u8], usize, &mut [f16], usize, usize, usize) -> Result<(), YuvError>),
    C39(fn(&[u8], usize, &mut [u8], usize, usize, usize, RotationMode) -> Result<(), YuvError>),
    C40(fn(&[u16], usize, &mut [u16], usize, usize, usize, RotationMode) -> Result<(), YuvError>),
    C41(fn(&[u8], usize, &mut [u8], usize, usize, usize, MirrorMode) -> Result<(), YuvError>),
    C42(fn(&[u16], usize, &mut [u16], usize, usize, usize, MirrorMode) -> Result<(), YuvError>),
    C43(fn(&mut [u8], u32, Rgb30ByteOrder, &[u16], u32, u32, u32) -> Result<(), YuvError>),
    C44(fn(&mut [u8], u32, Rgb30ByteOrder, &[u8], u32, u32, u32) -> Result<(), YuvError>),
    C45(fn(&[u8], u32, &mut [u8], u32, u32, u32) -> Result<(), YuvError>),
    C46(fn(&YuvBiPlanarImage<u16>, &mut [u8], u32, Rgb30ByteOrder, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C47(fn(&YuvPlanarImage<u16>, &mut [u8], u32, Rgb30ByteOrder, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C48(fn(&mut YuvPlanarImageMut<i16>, &[u8], u32) -> Result<(), YuvError>),
    C49(fn(&YuvPlanarImage<i16>, &mut [u8], u32) -> Result<(), YuvError>),
    C50(fn(&YuvPlanarImage<u16>, &mut [f16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>),
    C51(fn(&YuvPackedImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix, bool) -> Result<(), YuvError>),
}

pub fn registry() -> Vec<Op> {
    vec![
        Op::new(0, "p010_to_bgr", bip(S420, 10, false), rgb(BGR, 8, U8), Model::Yuv, Call::C0(p010_to_bgr)),
        Op::new(1, "p010_to_bgra", bip(S420, 10, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C0(p010_to_bgra)),
        Op::new(2, "p010_to_rgb", bip(S420, 10, false), rgb(RGB, 8, U8), Model::Yuv, Call::C0(p010_to_rgb)),
        Op::new(3, "p010_to_rgba", bip(S420, 10, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C0(p010_to_rgba)),
        Op::new(4, "p210_to_bgr", bip(S422, 10, false), rgb(BGR, 8, U8), Model::Yuv, Call::C0(p210_to_bgr)),
        Op::new(5, "p210_to_bgra", bip(S422, 10, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C0(p210_to_bgra)),
        Op::new(6, "p210_to_rgb", bip(S422, 10, false), rgb(RGB, 8, U8), Model::Yuv, Call::C0(p210_to_rgb)),
        Op::new(7, "p210_to_rgba", bip(S422, 10, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C0(p210_to_rgba)),
        Op::new(8, "p410_to_bgr", bip(S444, 10, false), rgb(BGR, 8, U8), Model::Yuv, Call::C0(p410_to_bgr)),
        Op::new(9, "p410_to_bgra", bip(S444, 10, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C0(p410_to_bgra)),
        Op::new(10, "p410_to_rgb", bip(S444, 10, false), rgb(RGB, 8, U8), Model::Yuv, Call::C0(p410_to_rgb)),
        Op::new(11, "p410_to_rgba", bip(S444, 10, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C0(p410_to_rgba)),
        Op::new(12, "p010_to_rgb10", bip(S420, 10, false), rgb(RGB, 10, U16), Model::Yuv, Call::C1(p010_to_rgb10)),
        Op::new(13, "p010_to_rgba10", bip(S420, 10, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C1(p010_to_rgba10)),
        Op::new(14, "p012_to_rgb12", bip(S420, 12, false), rgb(RGB, 12, U16), Model::Yuv, Call::C1(p012_to_rgb12)),
        Op::new(15, "p012_to_rgba12", bip(S420, 12, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C1(p012_to_rgba12)),
        Op::new(16, "p210_to_rgb10", bip(S422, 10, false), rgb(RGB, 10, U16), Model::Yuv, Call::C1(p210_to_rgb10)),
        Op::new(17, "p210_to_rgba10", bip(S422, 10, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C1(p210_to_rgba10)),
        Op::new(18, "p212_to_rgb12", bip(S422, 12, false), rgb(RGB, 12, U16), Model::Yuv, Call::C1(p212_to_rgb12)),
        Op::new(19, "p212_to_rgba12", bip(S422, 12, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C1(p212_to_rgba12)),
        Op::new(20, "p410_to_rgb10", bip(S444, 10, false), rgb(RGB, 10, U16), Model::Yuv, Call::C1(p410_to_rgb10)),
        Op::new(21, "p410_to_rgba10", bip(S444, 10, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C1(p410_to_rgba10)),
        Op::new(22, "p412_to_rgb12", bip(S444, 12, false), rgb(RGB, 12, U16), Model::Yuv, Call::C1(p412_to_rgb12)),
        Op::new(23, "p412_to_rgba12", bip(S444, 12, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C1(p412_to_rgba12)),
        Op::new(24, "yuv_nv12_to_bgr", bip(S420, 8, false), rgb(BGR, 8, U8), Model::Yuv, Call::C2(yuv_nv12_to_bgr)),
        Op::new(25, "yuv_nv12_to_bgra", bip(S420, 8, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C2(yuv_nv12_to_bgra)),
        Op::new(26, "yuv_nv12_to_rgb", bip(S420, 8, false), rgb(RGB, 8, U8), Model::Yuv, Call::C2(yuv_nv12_to_rgb)),
        Op::new(27, "yuv_nv12_to_rgba", bip(S420, 8, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C2(yuv_nv12_to_rgba)),
        Op::new(28, "yuv_nv21_to_bgr", bip(S420, 8, true), rgb(BGR, 8, U8), Model::Yuv, Call::C2(yuv_nv21_to_bgr)),
        Op::new(29, "yuv_nv21_to_bgra", bip(S420, 8, true), rgb(BGRA, 8, U8), Model::Yuv, Call::C2(yuv_nv21_to_bgra)),
        Op::new(30, "yuv_nv21_to_rgb", bip(S420, 8, true), rgb(RGB, 8, U8), Model::Yuv, Call::C2(yuv_nv21_to_rgb)),
        Op::new(31, "yuv_nv21_to_rgba", bip(S420, 8, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C2(yuv_nv21_to_rgba)),
        Op::new(32, "yuv_nv24_to_bgr", bip(S444, 8, false), rgb(BGR, 8, U8), Model::Yuv, Call::C2(yuv_nv24_to_bgr)),
        Op::new(33, "yuv_nv24_to_bgra", bip(S444, 8, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C2(yuv_nv24_to_bgra)),
        Op::new(34, "yuv_nv24_to_rgb", bip(S444, 8, false), rgb(RGB, 8, U8), Model::Yuv, Call::C2(yuv_nv24_to_rgb)),
        Op::new(35, "yuv_nv24_to_rgba", bip(S444, 8, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C2(yuv_nv24_to_rgba)),
        Op::new(36, "yuv_nv42_to_bgr", bip(S444, 8, true), rgb(BGR, 8, U8), Model::Yuv, Call::C2(yuv_nv42_to_bgr)),
        Op::new(37, "yuv_nv42_to_bgra", bip(S444, 8, true), rgb(BGRA, 8, U8), Model::Yuv, Call::C2(yuv_nv42_to_bgra)),
        Op::new(38, "yuv_nv42_to_rgb", bip(S444, 8, true), rgb(RGB, 8, U8), Model::Yuv, Call::C2(yuv_nv42_to_rgb)),
        Op::new(39, "yuv_nv42_to_rgba", bip(S444, 8, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C2(yuv_nv42_to_rgba)),
        Op::new(40, "yuv_nv16_to_bgr", bip(S422, 8, false), rgb(BGR, 8, U8), Model::Yuv, Call::C2(yuv_nv16_to_bgr)),
        Op::new(41, "yuv_nv16_to_bgra", bip(S422, 8, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C2(yuv_nv16_to_bgra)),
        Op::new(42, "yuv_nv16_to_rgb", bip(S422, 8, false), rgb(RGB, 8, U8), Model::Yuv, Call::C2(yuv_nv16_to_rgb)),
        Op::new(43, "yuv_nv16_to_rgba", bip(S422, 8, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C2(yuv_nv16_to_rgba)),
        Op::new(44, "yuv_nv61_to_bgr", bip(S422, 8, true), rgb(BGR, 8, U8), Model::Yuv, Call::C2(yuv_nv61_to_bgr)),
        Op::new(45, "yuv_nv61_to_bgra", bip(S422, 8, true), rgb(BGRA, 8, U8), Model::Yuv, Call::C2(yuv_nv61_to_bgra)),
        Op::new(46, "yuv_nv61_to_rgb", bip(S422, 8, true), rgb(RGB, 8, U8), Model::Yuv, Call::C2(yuv_nv61_to_rgb)),
        Op::new(47, "yuv_nv61_to_rgba", bip(S422, 8, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C2(yuv_nv61_to_rgba)),
        Op::new(48, "bgr_to_yuv_nv12", rgb(BGR, 8, U8), bip(S420, 8, false), Model::Yuv, Call::C3(bgr_to_yuv_nv12)),
        Op::new(49, "bgr_to_yuv_nv16", rgb(BGR, 8, U8), bip(S422, 8, false), Model::Yuv, Call::C3(bgr_to_yuv_nv16)),
        Op::new(50, "bgr_to_yuv_nv21", rgb(BGR, 8, U8), bip(S420, 8, true), Model::Yuv, Call::C3(bgr_to_yuv_nv21)),
        Op::new(51, "bgr_to_yuv_nv24", rgb(BGR, 8, U8), bip(S444, 8, false), Model::Yuv, Call::C3(bgr_to_yuv_nv24)),
        Op::new(52, "bgr_to_yuv_nv42", rgb(BGR, 8, U8), bip(S444, 8, true), Model::Yuv, Call::C3(bgr_to_yuv_nv42)),
        Op::new(53, "bgr_to_yuv_nv61", rgb(BGR, 8, U8), bip(S422, 8, true), Model::Yuv, Call::C3(bgr_to_yuv_nv61)),
        Op::new(54, "bgra_to_yuv_nv12", rgb(BGRA, 8, U8), bip(S420, 8, false), Model::Yuv, Call::C3(bgra_to_yuv_nv12)),
        Op::new(55, "bgra_to_yuv_nv16", rgb(BGRA, 8, U8), bip(S422, 8, false), Model::Yuv, Call::C3(bgra_to_yuv_nv16)),
        Op::new(56, "bgra_to_yuv_nv21", rgb(BGRA, 8, U8), bip(S420, 8, true), Model::Yuv, Call::C3(bgra_to_yuv_nv21)),
        Op::new(57, "bgra_to_yuv_nv24", rgb(BGRA, 8, U8), bip(S444, 8, false), Model::Yuv, Call::C3(bgra_to_yuv_nv24)),
        Op::new(58, "bgra_to_yuv_nv42", rgb(BGRA, 8, U8), bip(S444, 8, true), Model::Yuv, Call::C3(bgra_to_yuv_nv42)),
        Op::new(59, "bgra_to_yuv_nv61", rgb(BGRA, 8, U8), bip(S422, 8, true), Model::Yuv, Call::C3(bgra_to_yuv_nv61)),
        Op::new(60, "rgb_to_yuv_nv12", rgb(RGB, 8, U8), bip(S420, 8, false), Model::Yuv, Call::C3(rgb_to_yuv_nv12)),
        Op::new(61, "rgb_to_yuv_nv16", rgb(RGB, 8, U8), bip(S422, 8, false), Model::Yuv, Call::C3(rgb_to_yuv_nv16)),
        Op::new(62, "rgb_to_yuv_nv21", rgb(RGB, 8, U8), bip(S420, 8, true), Model::Yuv, Call::C3(rgb_to_yuv_nv21)),
        Op::new(63, "rgb_to_yuv_nv24", rgb(RGB, 8, U8), bip(S444, 8, false), Model::Yuv, Call::C3(rgb_to_yuv_nv24)),
        Op::new(64, "rgb_to_yuv_nv42", rgb(RGB, 8, U8), bip(S444, 8, true), Model::Yuv, Call::C3(rgb_to_yuv_nv42)),
        Op::new(65, "rgb_to_yuv_nv61", rgb(RGB, 8, U8), bip(S422, 8, true), Model::Yuv, Call::C3(rgb_to_yuv_nv61)),
        Op::new(66, "rgba_to_yuv_nv12", rgb(RGBA, 8, U8), bip(S420, 8, false), Model::Yuv, Call::C3(rgba_to_yuv_nv12)),
        Op::new(67, "rgba_to_yuv_nv16", rgb(RGBA, 8, U8), bip(S422, 8, false), Model::Yuv, Call::C3(rgba_to_yuv_nv16)),
        Op::new(68, "rgba_to_yuv_nv21", rgb(RGBA, 8, U8), bip(S420, 8, true), Model::Yuv, Call::C3(rgba_to_yuv_nv21)),
        Op::new(69, "rgba_to_yuv_nv24", rgb(RGBA, 8, U8), bip(S444, 8, false), Model::Yuv, Call::C3(rgba_to_yuv_nv24)),
        Op::new(70, "rgba_to_yuv_nv42", rgb(RGBA, 8, U8), bip(S444, 8, true), Model::Yuv, Call::C3(rgba_to_yuv_nv42)),
        Op::new(71, "rgba_to_yuv_nv61", rgb(RGBA, 8, U8), bip(S422, 8, true), Model::Yuv, Call::C3(rgba_to_yuv_nv61)),
        Op::new(72, "yuv420_to_bgr", planar(S420, 8, false, false), rgb(BGR, 8, U8), Model::Yuv, Call::C4(yuv420_to_bgr)),
        Op::new(73, "yuv420_to_bgra", planar(S420, 8, false, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C4(yuv420_to_bgra)),
        Op::new(74, "yuv420_to_rgb", planar(S420, 8, false, false), rgb(RGB, 8, U8), Model::Yuv, Call::C4(yuv420_to_rgb)),
        Op::new(75, "yuv420_to_rgba", planar(S420, 8, false, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C4(yuv420_to_rgba)),
        Op::new(76, "yuv422_to_bgr", planar(S422, 8, false, false), rgb(BGR, 8, U8), Model::Yuv, Call::C4(yuv422_to_bgr)),
        Op::new(77, "yuv422_to_bgra", planar(S422, 8, false, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C4(yuv422_to_bgra)),
        Op::new(78, "yuv422_to_rgb", planar(S422, 8, false, false), rgb(RGB, 8, U8), Model::Yuv, Call::C4(yuv422_to_rgb)),
        Op::new(79, "yuv422_to_rgba", planar(S422, 8, false, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C4(yuv422_to_rgba)),
        Op::new(80, "yuv444_to_bgr", planar(S444, 8, false, false), rgb(BGR, 8, U8), Model::Yuv, Call::C4(yuv444_to_bgr)),
        Op::new(81, "yuv444_to_bgra", planar(S444, 8, false, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C4(yuv444_to_bgra)),
        Op::new(82, "yuv444_to_rgb", planar(S444, 8, false, false), rgb(RGB, 8, U8), Model::Yuv, Call::C4(yuv444_to_rgb)),
        Op::new(83, "yuv444_to_rgba", planar(S444, 8, false, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C4(yuv444_to_rgba)),
        Op::new(84, "bgr_to_yuv420", rgb(BGR, 8, U8), planar(S420, 8, false, false), Model::Yuv, Call::C5(bgr_to_yuv420)),
        Op::new(85, "bgr_to_yuv422", rgb(BGR, 8, U8), planar(S422, 8, false, false), Model::Yuv, Call::C5(bgr_to_yuv422)),
        Op::new(86, "bgr_to_yuv444", rgb(BGR, 8, U8), planar(S444, 8, false, false), Model::Yuv, Call::C5(bgr_to_yuv444)),
        Op::new(87, "bgra_to_yuv420", rgb(BGRA, 8, U8), planar(S420, 8, false, false), Model::Yuv, Call::C5(bgra_to_yuv420)),
        Op::new(88, "bgra_to_yuv422", rgb(BGRA, 8, U8), planar(S422, 8, false, false), Model::Yuv, Call::C5(bgra_to_yuv422)),
        Op::new(89, "bgra_to_yuv444", rgb(BGRA, 8, U8), planar(S444, 8, false, false), Model::Yuv, Call::C5(bgra_to_yuv444)),
        Op::new(90, "rgb_to_yuv420", rgb(RGB, 8, U8), planar(S420, 8, false, false), Model::Yuv, Call::C5(rgb_to_yuv420)),
        Op::new(91, "rgb_to_yuv422", rgb(RGB, 8, U8), planar(S422, 8, false, false), Model::Yuv, Call::C5(rgb_to_yuv422)),
        Op::new(92, "rgb_to_yuv444", rgb(RGB, 8, U8), planar(S444, 8, false, false), Model::Yuv, Call::C5(rgb_to_yuv444)),
        Op::new(93, "rgba_to_yuv420", rgb(RGBA, 8, U8), planar(S420, 8, false, false), Model::Yuv, Call::C5(rgba_to_yuv420)),
        Op::new(94, "rgba_to_yuv422", rgb(RGBA, 8, U8), planar(S422, 8, false, false), Model::Yuv, Call::C5(rgba_to_yuv422)),
        Op::new(95, "rgba_to_yuv444", rgb(RGBA, 8, U8), planar(S444, 8, false, false), Model::Yuv, Call::C5(rgba_to_yuv444)),
        Op::new(96, "rgb10_to_i010", rgb(RGB, 10, U16), planar(S420, 10, false, false), Model::Yuv, Call::C6(rgb10_to_i010)),
        Op::new(97, "rgb10_to_i210", rgb(RGB, 10, U16), planar(S422, 10, false, false), Model::Yuv, Call::C6(rgb10_to_i210)),
        Op::new(98, "rgb10_to_i410", rgb(RGB, 10, U16), planar(S444, 10, false, false), Model::Yuv, Call::C6(rgb10_to_i410)),
        Op::new(99, "rgb12_to_i012", rgb(RGB, 12, U16), planar(S420, 12, false, false), Model::Yuv, Call::C6(rgb12_to_i012)),
        Op::new(100, "rgb12_to_i212", rgb(RGB, 12, U16), planar(S422, 12, false, false), Model::Yuv, Call::C6(rgb12_to_i212)),
        Op::new(101, "rgb12_to_i412", rgb(RGB, 12, U16), planar(S444, 12, false, false), Model::Yuv, Call::C6(rgb12_to_i412)),
        Op::new(102, "rgb14_to_i014", rgb(RGB, 14, U16), planar(S420, 14, false, false), Model::Yuv, Call::C6(rgb14_to_i014)),
        Op::new(103, "rgb14_to_i214", rgb(RGB, 14, U16), planar(S422, 14, false, false), Model::Yuv, Call::C6(rgb14_to_i214)),
        Op::new(104, "rgb14_to_i414", rgb(RGB, 14, U16), planar(S444, 14, false, false), Model::Yuv, Call::C6(rgb14_to_i414)),
        Op::new(105, "rgb16_to_i016", rgb(RGB, 16, U16), planar(S420, 16, false, false), Model::Yuv, Call::C6(rgb16_to_i016)),
        Op::new(106, "rgb16_to_i216", rgb(RGB, 16, U16), planar(S422, 16, false, false), Model::Yuv, Call::C6(rgb16_to_i216)),
        Op::new(107, "rgb16_to_i416", rgb(RGB, 16, U16), planar(S444, 16, false, false), Model::Yuv, Call::C6(rgb16_to_i416)),
        Op::new(108, "rgba10_to_i010", rgb(RGBA, 10, U16), planar(S420, 10, false, false), Model::Yuv, Call::C6(rgba10_to_i010)),
        Op::new(109, "rgba10_to_i210", rgb(RGBA, 10, U16), planar(S422, 10, false, false), Model::Yuv, Call::C6(rgba10_to_i210)),
        Op::new(110, "rgba10_to_i410", rgb(RGBA, 10, U16), planar(S444, 10, false, false), Model::Yuv, Call::C6(rgba10_to_i410)),
        Op::new(111, "rgba12_to_i012", rgb(RGBA, 12, U16), planar(S420, 12, false, false), Model::Yuv, Call::C6(rgba12_to_i012)),
        Op::new(112, "rgba12_to_i212", rgb(RGBA, 12, U16), planar(S422, 12, false, false), Model::Yuv, Call::C6(rgba12_to_i212)),
        Op::new(113, "rgba12_to_i412", rgb(RGBA, 12, U16), planar(S444, 12, false, false), Model::Yuv, Call::C6(rgba12_to_i412)),
        Op::new(114, "rgba14_to_i014", rgb(RGBA, 14, U16), planar(S420, 14, false, false), Model::Yuv, Call::C6(rgba14_to_i014)),
        Op::new(115, "rgba14_to_i214", rgb(RGBA, 14, U16), planar(S422, 14, false, false), Model::Yuv, Call::C6(rgba14_to_i214)),
        Op::new(116, "rgba14_to_i414", rgb(RGBA, 14, U16), planar(S444, 14, false, false), Model::Yuv, Call::C6(rgba14_to_i414)),
        Op::new(117, "rgba16_to_i016", rgb(RGBA, 16, U16), planar(S420, 16, false, false), Model::Yuv, Call::C6(rgba16_to_i016)),
        Op::new(118, "rgba16_to_i216", rgb(RGBA, 16, U16), planar(S422, 16, false, false), Model::Yuv, Call::C6(rgba16_to_i216)),
        Op::new(119, "rgba16_to_i416", rgb(RGBA, 16, U16), planar(S444, 16, false, false), Model::Yuv, Call::C6(rgba16_to_i416)),
        Op::new(120, "rgb10_to_i010_be", rgb(RGB, 10, U16), planar(S420, 10, false, true), Model::Yuv, Call::C6(rgb10_to_i010_be)),
        Op::new(121, "rgb10_to_i210_be", rgb(RGB, 10, U16), planar(S422, 10, false, true), Model::Yuv, Call::C6(rgb10_to_i210_be)),
        Op::new(122, "rgb10_to_i410_be", rgb(RGB, 10, U16), planar(S444, 10, false, true), Model::Yuv, Call::C6(rgb10_to_i410_be)),
        Op::new(123, "rgb12_to_i012_be", rgb(RGB, 12, U16), planar(S420, 12, false, true), Model::Yuv, Call::C6(rgb12_to_i012_be)),
        Op::new(124, "rgb12_to_i212_be", rgb(RGB, 12, U16), planar(S422, 12, false, true), Model::Yuv, Call::C6(rgb12_to_i212_be)),
        Op::new(125, "rgb12_to_i412_be", rgb(RGB, 12, U16), planar(S444, 12, false, true), Model::Yuv, Call::C6(rgb12_to_i412_be)),
        Op::new(126, "rgb14_to_i014_be", rgb(RGB, 14, U16), planar(S420, 14, false, true), Model::Yuv, Call::C6(rgb14_to_i014_be)),
        Op::new(127, "rgb14_to_i214_be", rgb(RGB, 14, U16), planar(S422, 14, false, true), Model::Yuv, Call::C6(rgb14_to_i214_be)),
        Op::new(128, "rgb14_to_i414_be", rgb(RGB, 14, U16), planar(S444, 14, false, true), Model::Yuv, Call::C6(rgb14_to_i414_be)),
        Op::new(129, "rgb16_to_i016_be", rgb(RGB, 16, U16), planar(S420, 16, false, true), Model::Yuv, Call::C6(rgb16_to_i016_be)),
        Op::new(130, "rgb16_to_i216_be", rgb(RGB, 16, U16), planar(S422, 16, false, true), Model::Yuv, Call::C6(rgb16_to_i216_be)),
        Op::new(131, "rgb16_to_i416_be", rgb(RGB, 16, U16), planar(S444, 16, false, true), Model::Yuv, Call::C6(rgb16_to_i416_be)),
        Op::new(132, "rgba10_to_i010_be", rgb(RGBA, 10, U16), planar(S420, 10, false, true), Model::Yuv, Call::C6(rgba10_to_i010_be)),
        Op::new(133, "rgba10_to_i210_be", rgb(RGBA, 10, U16), planar(S422, 10, false, true), Model::Yuv, Call::C6(rgba10_to_i210_be)),
        Op::new(134, "rgba10_to_i410_be", rgb(RGBA, 10, U16), planar(S444, 10, false, true), Model::Yuv, Call::C6(rgba10_to_i410_be)),
        Op::new(135, "rgba12_to_i012_be", rgb(RGBA, 12, U16), planar(S420, 12, false, true), Model::Yuv, Call::C6(rgba12_to_i012_be)),
        Op::new(136, "rgba12_to_i212_be", rgb(RGBA, 12, U16), planar(S422, 12, false, true), Model::Yuv, Call::C6(rgba12_to_i212_be)),
        Op::new(137, "rgba12_to_i412_be", rgb(RGBA, 12, U16), planar(S444, 12, false, true), Model::Yuv, Call::C6(rgba12_to_i412_be)),
        Op::new(138, "rgba14_to_i014_be", rgb(RGBA, 14, U16), planar(S420, 14, false, true), Model::Yuv, Call::C6(rgba14_to_i014_be)),
        Op::new(139, "rgba14_to_i214_be", rgb(RGBA, 14, U16), planar(S422, 14, false, true), Model::Yuv, Call::C6(rgba14_to_i214_be)),
        Op::new(140, "rgba14_to_i414_be", rgb(RGBA, 14, U16), planar(S444, 14, false, true), Model::Yuv, Call::C6(rgba14_to_i414_be)),
        Op::new(141, "rgba16_to_i016_be", rgb(RGBA, 16, U16), planar(S420, 16, false, true), Model::Yuv, Call::C6(rgba16_to_i016_be)),
        Op::new(142, "rgba16_to_i216_be", rgb(RGBA, 16, U16), planar(S422, 16, false, true), Model::Yuv, Call::C6(rgba16_to_i216_be)),
        Op::new(143, "rgba16_to_i416_be", rgb(RGBA, 16, U16), planar(S444, 16, false, true), Model::Yuv, Call::C6(rgba16_to_i416_be)),
        Op::new(144, "yuv420_alpha_to_bgra", planar(S420, 8, true, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C7(yuv420_alpha_to_bgra)),
        Op::new(145, "yuv420_alpha_to_rgba", planar(S420, 8, true, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C7(yuv420_alpha_to_rgba)),
        Op::new(146, "yuv422_alpha_to_bgra", planar(S422, 8, true, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C7(yuv422_alpha_to_bgra)),
        Op::new(147, "yuv422_alpha_to_rgba", planar(S422, 8, true, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C7(yuv422_alpha_to_rgba)),
        Op::new(148, "yuv444_alpha_to_bgra", planar(S444, 8, true, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C7(yuv444_alpha_to_bgra)),
        Op::new(149, "yuv444_alpha_to_rgba", planar(S444, 8, true, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C7(yuv444_alpha_to_rgba)),
        Op::new(150, "bgr_to_yuv400", rgb(BGR, 8, U8), gray(8, false), Model::Yuv, Call::C8(bgr_to_yuv400)),
        Op::new(151, "bgra_to_yuv400", rgb(BGRA, 8, U8), gray(8, false), Model::Yuv, Call::C8(bgra_to_yuv400)),
        Op::new(152, "rgb_to_yuv400", rgb(RGB, 8, U8), gray(8, false), Model::Yuv, Call::C8(rgb_to_yuv400)),
        Op::new(153, "rgba_to_yuv400", rgb(RGBA, 8, U8), gray(8, false), Model::Yuv, Call::C8(rgba_to_yuv400)),
        Op::new(154, "yuv400_to_bgr", gray(8, false), rgb(BGR, 8, U8), Model::Yuv, Call::C9(yuv400_to_bgr)),
        Op::new(155, "yuv400_to_bgra", gray(8, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C9(yuv400_to_bgra)),
        Op::new(156, "yuv400_to_rgb", gray(8, false), rgb(RGB, 8, U8), Model::Yuv, Call::C9(yuv400_to_rgb)),
        Op::new(157, "yuv400_to_rgba", gray(8, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C9(yuv400_to_rgba)),
        Op::new(158, "i010_be_to_bgr", planar(S420, 10, false, true), rgb(BGR, 8, U8), Model::Yuv, Call::C10(i010_be_to_bgr)),
        Op::new(159, "i010_be_to_bgra", planar(S420, 10, false, true), rgb(BGRA, 8, U8), Model::Yuv, Call::C10(i010_be_to_bgra)),
        Op::new(160, "i010_be_to_rgb", planar(S420, 10, false, true), rgb(RGB, 8, U8), Model::Yuv, Call::C10(i010_be_to_rgb)),
        Op::new(161, "i010_be_to_rgba", planar(S420, 10, false, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i010_be_to_rgba)),
        Op::new(162, "i012_be_to_bgr", planar(S420, 12, false, true), rgb(BGR, 8, U8), Model::Yuv, Call::C10(i012_be_to_bgr)),
        Op::new(163, "i012_be_to_bgra", planar(S420, 12, false, true), rgb(BGRA, 8, U8), Model::Yuv, Call::C10(i012_be_to_bgra)),
        Op::new(164, "i012_be_to_rgb", planar(S420, 12, false, true), rgb(RGB, 8, U8), Model::Yuv, Call::C10(i012_be_to_rgb)),
        Op::new(165, "i012_be_to_rgba", planar(S420, 12, false, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i012_be_to_rgba)),
        Op::new(166, "i210_be_to_bgr", planar(S422, 10, false, true), rgb(BGR, 8, U8), Model::Yuv, Call::C10(i210_be_to_bgr)),
        Op::new(167, "i210_be_to_bgra", planar(S422, 10, false, true), rgb(BGRA, 8, U8), Model::Yuv, Call::C10(i210_be_to_bgra)),
        Op::new(168, "i210_be_to_rgb", planar(S422, 10, false, true), rgb(RGB, 8, U8), Model::Yuv, Call::C10(i210_be_to_rgb)),
        Op::new(169, "i210_be_to_rgba", planar(S422, 10, false, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i210_be_to_rgba)),
        Op::new(170, "i212_be_to_bgr", planar(S422, 12, false, true), rgb(BGR, 8, U8), Model::Yuv, Call::C10(i212_be_to_bgr)),
        Op::new(171, "i212_be_to_bgra", planar(S422, 12, false, true), rgb(BGRA, 8, U8), Model::Yuv, Call::C10(i212_be_to_bgra)),
        Op::new(172, "i212_be_to_rgb", planar(S422, 12, false, true), rgb(RGB, 8, U8), Model::Yuv, Call::C10(i212_be_to_rgb)),
        Op::new(173, "i212_be_to_rgba", planar(S422, 12, false, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i212_be_to_rgba)),
        Op::new(174, "i410_be_to_rgba", planar(S444, 10, false, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i410_be_to_rgba)),
        Op::new(175, "i010_to_bgr", planar(S420, 10, false, false), rgb(BGR, 8, U8), Model::Yuv, Call::C10(i010_to_bgr)),
        Op::new(176, "i010_to_bgra", planar(S420, 10, false, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C10(i010_to_bgra)),
        Op::new(177, "i010_to_rgb", planar(S420, 10, false, false), rgb(RGB, 8, U8), Model::Yuv, Call::C10(i010_to_rgb)),
        Op::new(178, "i010_to_rgba", planar(S420, 10, false, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i010_to_rgba)),
        Op::new(179, "i012_to_bgr", planar(S420, 12, false, false), rgb(BGR, 8, U8), Model::Yuv, Call::C10(i012_to_bgr)),
        Op::new(180, "i012_to_bgra", planar(S420, 12, false, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C10(i012_to_bgra)),
        Op::new(181, "i012_to_rgb", planar(S420, 12, false, false), rgb(RGB, 8, U8), Model::Yuv, Call::C10(i012_to_rgb)),
        Op::new(182, "i012_to_rgba", planar(S420, 12, false, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i012_to_rgba)),
        Op::new(183, "i210_to_bgr", planar(S422, 10, false, false), rgb(BGR, 8, U8), Model::Yuv, Call::C10(i210_to_bgr)),
        Op::new(184, "i210_to_bgra", planar(S422, 10, false, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C10(i210_to_bgra)),
        Op::new(185, "i210_to_rgb", planar(S422, 10, false, false), rgb(RGB, 8, U8), Model::Yuv, Call::C10(i210_to_rgb)),
        Op::new(186, "i210_to_rgba", planar(S422, 10, false, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i210_to_rgba)),
        Op::new(187, "i212_to_bgr", planar(S422, 12, false, false), rgb(BGR, 8, U8), Model::Yuv, Call::C10(i212_to_bgr)),
        Op::new(188, "i212_to_bgra", planar(S422, 12, false, false), rgb(BGRA, 8, U8), Model::Yuv, Call::C10(i212_to_bgra)),
        Op::new(189, "i212_to_rgb", planar(S422, 12, false, false), rgb(RGB, 8, U8), Model::Yuv, Call::C10(i212_to_rgb)),
        Op::new(190, "i212_to_rgba", planar(S422, 12, false, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i212_to_rgba)),
        Op::new(191, "i410_to_rgba", planar(S444, 10, false, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C10(i410_to_rgba)),
        Op::new(192, "bgr_to_ycgco420", rgb(BGR, 8, U8), planar(S420, 8, false, false), Model::YCgCo, Call::C11(bgr_to_ycgco420)),
        Op::new(193, "bgr_to_ycgco422", rgb(BGR, 8, U8), planar(S422, 8, false, false), Model::YCgCo, Call::C11(bgr_to_ycgco422)),
        Op::new(194, "bgr_to_ycgco444", rgb(BGR, 8, U8), planar(S444, 8, false, false), Model::YCgCo, Call::C11(bgr_to_ycgco444)),
        Op::new(195, "bgra_to_ycgco420", rgb(BGRA, 8, U8), planar(S420, 8, false, false), Model::YCgCo, Call::C11(bgra_to_ycgco420)),
        Op::new(196, "bgra_to_ycgco422", rgb(BGRA, 8, U8), planar(S422, 8, false, false), Model::YCgCo, Call::C11(bgra_to_ycgco422)),
        Op::new(197, "bgra_to_ycgco444", rgb(BGRA, 8, U8), planar(S444, 8, false, false), Model::YCgCo, Call::C11(bgra_to_ycgco444)),
        Op::new(198, "rgb_to_ycgco420", rgb(RGB, 8, U8), planar(S420, 8, false, false), Model::YCgCo, Call::C11(rgb_to_ycgco420)),
        Op::new(199, "rgb_to_ycgco422", rgb(RGB, 8, U8), planar(S422, 8, false, false), Model::YCgCo, Call::C11(rgb_to_ycgco422)),
        Op::new(200, "rgb_to_ycgco444", rgb(RGB, 8, U8), planar(S444, 8, false, false), Model::YCgCo, Call::C11(rgb_to_ycgco444)),
        Op::new(201, "rgba_to_ycgco420", rgb(RGBA, 8, U8), planar(S420, 8, false, false), Model::YCgCo, Call::C11(rgba_to_ycgco420)),
        Op::new(202, "rgba_to_ycgco422", rgb(RGBA, 8, U8), planar(S422, 8, false, false), Model::YCgCo, Call::C11(rgba_to_ycgco422)),
        Op::new(203, "rgba_to_ycgco444", rgb(RGBA, 8, U8), planar(S444, 8, false, false), Model::YCgCo, Call::C11(rgba_to_ycgco444)),
        Op::new(204, "bgr_to_gbr", rgb(BGR, 8, U8), planar(S444, 8, false, false), Model::Gbr, Call::C11(bgr_to_gbr)),
        Op::new(205, "bgra_to_gbr", rgb(BGRA, 8, U8), planar(S444, 8, false, false), Model::Gbr, Call::C11(bgra_to_gbr)),
        Op::new(206, "rgb_to_gbr", rgb(RGB, 8, U8), planar(S444, 8, false, false), Model::Gbr, Call::C11(rgb_to_gbr)),
        Op::new(207, "rgba_to_gbr", rgb(RGBA, 8, U8), planar(S444, 8, false, false), Model::Gbr, Call::C11(rgba_to_gbr)),
        Op::new(208, "ycgco420_to_bgr", planar(S420, 8, false, false), rgb(BGR, 8, U8), Model::YCgCo, Call::C12(ycgco420_to_bgr)),
        Op::new(209, "ycgco420_to_bgra", planar(S420, 8, false, false), rgb(BGRA, 8, U8), Model::YCgCo, Call::C12(ycgco420_to_bgra)),
        Op::new(210, "ycgco420_to_rgb", planar(S420, 8, false, false), rgb(RGB, 8, U8), Model::YCgCo, Call::C12(ycgco420_to_rgb)),
        Op::new(211, "ycgco420_to_rgba", planar(S420, 8, false, false), rgb(RGBA, 8, U8), Model::YCgCo, Call::C12(ycgco420_to_rgba)),
        Op::new(212, "ycgco422_to_bgr", planar(S422, 8, false, false), rgb(BGR, 8, U8), Model::YCgCo, Call::C12(ycgco422_to_bgr)),
        Op::new(213, "ycgco422_to_bgra", planar(S422, 8, false, false), rgb(BGRA, 8, U8), Model::YCgCo, Call::C12(ycgco422_to_bgra)),
        Op::new(214, "ycgco422_to_rgb", planar(S422, 8, false, false), rgb(RGB, 8, U8), Model::YCgCo, Call::C12(ycgco422_to_rgb)),
        Op::new(215, "ycgco422_to_rgba", planar(S422, 8, false, false), rgb(RGBA, 8, U8), Model::YCgCo, Call::C12(ycgco422_to_rgba)),
        Op::new(216, "ycgco444_to_bgr", planar(S444, 8, false, false), rgb(BGR, 8, U8), Model::YCgCo, Call::C12(ycgco444_to_bgr)),
        Op::new(217, "ycgco444_to_bgra", planar(S444, 8, false, false), rgb(BGRA, 8, U8), Model::YCgCo, Call::C12(ycgco444_to_bgra)),
        Op::new(218, "ycgco444_to_rgb", planar(S444, 8, false, false), rgb(RGB, 8, U8), Model::YCgCo, Call::C12(ycgco444_to_rgb)),
        Op::new(219, "ycgco444_to_rgba", planar(S444, 8, false, false), rgb(RGBA, 8, U8), Model::YCgCo, Call::C12(ycgco444_to_rgba)),
        Op::new(220, "gbr_to_bgr", planar(S444, 8, false, false), rgb(BGR, 8, U8), Model::Gbr, Call::C12(gbr_to_bgr)),
        Op::new(221, "gbr_to_bgra", planar(S444, 8, false, false), rgb(BGRA, 8, U8), Model::Gbr, Call::C12(gbr_to_bgra)),
        Op::new(222, "gbr_to_rgb", planar(S444, 8, false, false), rgb(RGB, 8, U8), Model::Gbr, Call::C12(gbr_to_rgb)),
        Op::new(223, "gbr_to_rgba", planar(S444, 8, false, false), rgb(RGBA, 8, U8), Model::Gbr, Call::C12(gbr_to_rgba)),
        Op::new(224, "icgc010_to_rgb10", planar(S420, 10, false, false), rgb(RGB, 10, U16), Model::YCgCo, Call::C13(icgc010_to_rgb10)),
        Op::new(225, "icgc010_to_rgba10", planar(S420, 10, false, false), rgb(RGBA, 10, U16), Model::YCgCo, Call::C13(icgc010_to_rgba10)),
        Op::new(226, "icgc012_to_rgb12", planar(S420, 12, false, false), rgb(RGB, 12, U16), Model::YCgCo, Call::C13(icgc012_to_rgb12)),
        Op::new(227, "icgc012_to_rgba12", planar(S420, 12, false, false), rgb(RGBA, 12, U16), Model::YCgCo, Call::C13(icgc012_to_rgba12)),
        Op::new(228, "icgc210_to_rgb10", planar(S422, 10, false, false), rgb(RGB, 10, U16), Model::YCgCo, Call::C13(icgc210_to_rgb10)),
        Op::new(229, "icgc210_to_rgba10", planar(S422, 10, false, false), rgb(RGBA, 10, U16), Model::YCgCo, Call::C13(icgc210_to_rgba10)),
        Op::new(230, "icgc212_to_rgb12", planar(S422, 12, false, false), rgb(RGB, 12, U16), Model::YCgCo, Call::C13(icgc212_to_rgb12)),
        Op::new(231, "icgc212_to_rgba12", planar(S422, 12, false, false), rgb(RGBA, 12, U16), Model::YCgCo, Call::C13(icgc212_to_rgba12)),
        Op::new(232, "icgc410_to_rgb10", planar(S444, 10, false, false), rgb(RGB, 10, U16), Model::YCgCo, Call::C13(icgc410_to_rgb10)),
        Op::new(233, "icgc410_to_rgba10", planar(S444, 10, false, false), rgb(RGBA, 10, U16), Model::YCgCo, Call::C13(icgc410_to_rgba10)),
        Op::new(234, "icgc412_to_rgb12", planar(S444, 12, false, false), rgb(RGB, 12, U16), Model::YCgCo, Call::C13(icgc412_to_rgb12)),
        Op::new(235, "icgc412_to_rgba12", planar(S444, 12, false, false), rgb(RGBA, 12, U16), Model::YCgCo, Call::C13(icgc412_to_rgba12)),
        Op::new(236, "gb10_to_rgb10", planar(S444, 10, false, false), rgb(RGB, 10, U16), Model::Gbr, Call::C13(gb10_to_rgb10)),
        Op::new(237, "gb10_to_rgba10", planar(S444, 10, false, false), rgb(RGBA, 10, U16), Model::Gbr, Call::C13(gb10_to_rgba10)),
        Op::new(238, "gb12_to_rgb12", planar(S444, 12, false, false), rgb(RGB, 12, U16), Model::Gbr, Call::C13(gb12_to_rgb12)),
        Op::new(239, "gb12_to_rgba12", planar(S444, 12, false, false), rgb(RGBA, 12, U16), Model::Gbr, Call::C13(gb12_to_rgba12)),
        Op::new(240, "gb14_to_rgb14", planar(S444, 14, false, false), rgb(RGB, 14, U16), Model::Gbr, Call::C13(gb14_to_rgb14)),
        Op::new(241, "gb14_to_rgba14", planar(S444, 14, false, false), rgb(RGBA, 14, U16), Model::Gbr, Call::C13(gb14_to_rgba14)),
        Op::new(242, "gb16_to_rgb16", planar(S444, 16, false, false), rgb(RGB, 16, U16), Model::Gbr, Call::C13(gb16_to_rgb16)),
        Op::new(243, "gb16_to_rgba16", planar(S444, 16, false, false), rgb(RGBA, 16, U16), Model::Gbr, Call::C13(gb16_to_rgba16)),
        Op::new(244, "ycgco420_alpha_to_bgra", planar(S420, 8, true, false), rgb(BGRA, 8, U8), Model::YCgCo, Call::C14(ycgco420_alpha_to_bgra)),
        Op::new(245, "ycgco420_alpha_to_rgba", planar(S420, 8, true, false), rgb(RGBA, 8, U8), Model::YCgCo, Call::C14(ycgco420_alpha_to_rgba)),
        Op::new(246, "ycgco422_alpha_to_bgra", planar(S422, 8, true, false), rgb(BGRA, 8, U8), Model::YCgCo, Call::C14(ycgco422_alpha_to_bgra)),
        Op::new(247, "ycgco422_alpha_to_rgba", planar(S422, 8, true, false), rgb(RGBA, 8, U8), Model::YCgCo, Call::C14(ycgco422_alpha_to_rgba)),
        Op::new(248, "ycgco444_alpha_to_bgra", planar(S444, 8, true, false), rgb(BGRA, 8, U8), Model::YCgCo, Call::C14(ycgco444_alpha_to_bgra)),
        Op::new(249, "ycgco444_alpha_to_rgba", planar(S444, 8, true, false), rgb(RGBA, 8, U8), Model::YCgCo, Call::C14(ycgco444_alpha_to_rgba)),
        Op::new(250, "gbr_with_alpha_to_bgra", planar(S444, 8, true, false), rgb(BGRA, 8, U8), Model::Gbr, Call::C14(gbr_with_alpha_to_bgra)),
        Op::new(251, "gbr_with_alpha_to_rgba", planar(S444, 8, true, false), rgb(RGBA, 8, U8), Model::Gbr, Call::C14(gbr_with_alpha_to_rgba)),
        Op::new(252, "icgc010_alpha_to_rgba10", planar(S420, 10, true, false), rgb(RGBA, 10, U16), Model::YCgCo, Call::C15(icgc010_alpha_to_rgba10)),
        Op::new(253, "icgc012_alpha_to_rgba12", planar(S420, 12, true, false), rgb(RGBA, 12, U16), Model::YCgCo, Call::C15(icgc012_alpha_to_rgba12)),
        Op::new(254, "icgc210_alpha_to_rgba10", planar(S422, 10, true, false), rgb(RGBA, 10, U16), Model::YCgCo, Call::C15(icgc210_alpha_to_rgba10)),
        Op::new(255, "icgc212_alpha_to_rgba12", planar(S422, 12, true, false), rgb(RGBA, 12, U16), Model::YCgCo, Call::C15(icgc212_alpha_to_rgba12)),
        Op::new(256, "icgc410_alpha_to_rgba10", planar(S444, 10, true, false), rgb(RGBA, 10, U16), Model::YCgCo, Call::C15(icgc410_alpha_to_rgba10)),
        Op::new(257, "icgc412_alpha_to_rgba12", planar(S444, 12, true, false), rgb(RGBA, 12, U16), Model::YCgCo, Call::C15(icgc412_alpha_to_rgba12)),
        Op::new(258, "gb10_alpha_to_rgba10", planar(S444, 10, true, false), rgb(RGBA, 10, U16), Model::Gbr, Call::C15(gb10_alpha_to_rgba10)),
        Op::new(259, "gb12_alpha_to_rgba12", planar(S444, 12, true, false), rgb(RGBA, 12, U16), Model::Gbr, Call::C15(gb12_alpha_to_rgba12)),
        Op::new(260, "gb14_alpha_to_rgba14", planar(S444, 14, true, false), rgb(RGBA, 14, U16), Model::Gbr, Call::C15(gb14_alpha_to_rgba14)),
        Op::new(261, "gb16_alpha_to_rgba16", planar(S444, 16, true, false), rgb(RGBA, 16, U16), Model::Gbr, Call::C15(gb16_alpha_to_rgba16)),
        Op::new(262, "yuv420_to_uyvy422", planar(S420, 8, false, false), packed(UYVY, 8), Model::Repack, Call::C16(yuv420_to_uyvy422)),
        Op::new(263, "yuv420_to_vyuy422", planar(S420, 8, false, false), packed(VYUY, 8), Model::Repack, Call::C16(yuv420_to_vyuy422)),
        Op::new(264, "yuv420_to_yuyv422", planar(S420, 8, false, false), packed(YUYV, 8), Model::Repack, Call::C16(yuv420_to_yuyv422)),
        Op::new(265, "yuv420_to_yvyu422", planar(S420, 8, false, false), packed(YVYU, 8), Model::Repack, Call::C16(yuv420_to_yvyu422)),
        Op::new(266, "yuv422_to_uyvy422", planar(S422, 8, false, false), packed(UYVY, 8), Model::Repack, Call::C16(yuv422_to_uyvy422)),
        Op::new(267, "yuv422_to_vyuy422", planar(S422, 8, false, false), packed(VYUY, 8), Model::Repack, Call::C16(yuv422_to_vyuy422)),
        Op::new(268, "yuv422_to_yuyv422", planar(S422, 8, false, false), packed(YUYV, 8), Model::Repack, Call::C16(yuv422_to_yuyv422)),
        Op::new(269, "yuv422_to_yvyu422", planar(S422, 8, false, false), packed(YVYU, 8), Model::Repack, Call::C16(yuv422_to_yvyu422)),
        Op::new(270, "yuv444_to_uyvy422", planar(S444, 8, false, false), packed(UYVY, 8), Model::Repack, Call::C16(yuv444_to_uyvy422)),
        Op::new(271, "yuv444_to_vyuy422", planar(S444, 8, false, false), packed(VYUY, 8), Model::Repack, Call::C16(yuv444_to_vyuy422)),
        Op::new(272, "yuv444_to_yuyv422", planar(S444, 8, false, false), packed(YUYV, 8), Model::Repack, Call::C16(yuv444_to_yuyv422)),
        Op::new(273, "yuv444_to_yvyu422", planar(S444, 8, false, false), packed(YVYU, 8), Model::Repack, Call::C16(yuv444_to_yvyu422)),
        Op::new(274, "uyvy422_to_yuv420", packed(UYVY, 8), planar(S420, 8, false, false), Model::Repack, Call::C17(uyvy422_to_yuv420)),
        Op::new(275, "uyvy422_to_yuv422", packed(UYVY, 8), planar(S422, 8, false, false), Model::Repack, Call::C17(uyvy422_to_yuv422)),
        Op::new(276, "uyvy422_to_yuv444", packed(UYVY, 8), planar(S444, 8, false, false), Model::Repack, Call::C17(uyvy422_to_yuv444)),
        Op::new(277, "vyuy422_to_yuv420", packed(VYUY, 8), planar(S420, 8, false, false), Model::Repack, Call::C17(vyuy422_to_yuv420)),
        Op::new(278, "vyuy422_to_yuv422", packed(VYUY, 8), planar(S422, 8, false, false), Model::Repack, Call::C17(vyuy422_to_yuv422)),
        Op::new(279, "vyuy422_to_yuv444", packed(VYUY, 8), planar(S444, 8, false, false), Model::Repack, Call::C17(vyuy422_to_yuv444)),
        Op::new(280, "yuyv422_to_yuv420", packed(YUYV, 8), planar(S420, 8, false, false), Model::Repack, Call::C17(yuyv422_to_yuv420)),
        Op::new(281, "yuyv422_to_yuv422", packed(YUYV, 8), planar(S422, 8, false, false), Model::Repack, Call::C17(yuyv422_to_yuv422)),
        Op::new(282, "yuyv422_to_yuv444", packed(YUYV, 8), planar(S444, 8, false, false), Model::Repack, Call::C17(yuyv422_to_yuv444)),
        Op::new(283, "yvyu422_to_yuv420", packed(YVYU, 8), planar(S420, 8, false, false), Model::Repack, Call::C17(yvyu422_to_yuv420)),
        Op::new(284, "yvyu422_to_yuv422", packed(YVYU, 8), planar(S422, 8, false, false), Model::Repack, Call::C17(yvyu422_to_yuv422)),
        Op::new(285, "yvyu422_to_yuv444", packed(YVYU, 8), planar(S444, 8, false, false), Model::Repack, Call::C17(yvyu422_to_yuv444)),
        Op::new(286, "rgb10_to_gb10", rgb(RGB, 10, U16), planar(S444, 10, false, false), Model::Gbr, Call::C18(rgb10_to_gb10)),
        Op::new(287, "rgb12_to_gb12", rgb(RGB, 12, U16), planar(S444, 12, false, false), Model::Gbr, Call::C18(rgb12_to_gb12)),
        Op::new(288, "rgb14_to_gb14", rgb(RGB, 14, U16), planar(S444, 14, false, false), Model::Gbr, Call::C18(rgb14_to_gb14)),
        Op::new(289, "rgb16_to_gb16", rgb(RGB, 16, U16), planar(S444, 16, false, false), Model::Gbr, Call::C18(rgb16_to_gb16)),
        Op::new(290, "rgba10_to_gb10", rgb(RGBA, 10, U16), planar(S444, 10, false, false), Model::Gbr, Call::C18(rgba10_to_gb10)),
        Op::new(291, "rgba12_to_gb12", rgb(RGBA, 12, U16), planar(S444, 12, false, false), Model::Gbr, Call::C18(rgba12_to_gb12)),
        Op::new(292, "rgba14_to_gb14", rgb(RGBA, 14, U16), planar(S444, 14, false, false), Model::Gbr, Call::C18(rgba14_to_gb14)),
        Op::new(293, "rgba16_to_gb16", rgb(RGBA, 16, U16), planar(S444, 16, false, false), Model::Gbr, Call::C18(rgba16_to_gb16)),
        Op::new(294, "rgb10_to_p010", rgb(RGB, 10, U16), bip(S420, 10, false), Model::Yuv, Call::C19(rgb10_to_p010)),
        Op::new(295, "rgb10_to_p210", rgb(RGB, 10, U16), bip(S422, 10, false), Model::Yuv, Call::C19(rgb10_to_p210)),
        Op::new(296, "rgb10_to_p410", rgb(RGB, 10, U16), bip(S444, 10, false), Model::Yuv, Call::C19(rgb10_to_p410)),
        Op::new(297, "rgb12_to_p012", rgb(RGB, 12, U16), bip(S420, 12, false), Model::Yuv, Call::C19(rgb12_to_p012)),
        Op::new(298, "rgb12_to_p212", rgb(RGB, 12, U16), bip(S422, 12, false), Model::Yuv, Call::C19(rgb12_to_p212)),
        Op::new(299, "rgb12_to_p412", rgb(RGB, 12, U16), bip(S444, 12, false), Model::Yuv, Call::C19(rgb12_to_p412)),
        Op::new(300, "rgb16_to_p016", rgb(RGB, 16, U16), bip(S420, 16, false), Model::Yuv, Call::C19(rgb16_to_p016)),
        Op::new(301, "rgb16_to_p216", rgb(RGB, 16, U16), bip(S422, 16, false), Model::Yuv, Call::C19(rgb16_to_p216)),
        Op::new(302, "rgba10_to_p010", rgb(RGBA, 10, U16), bip(S420, 10, false), Model::Yuv, Call::C19(rgba10_to_p010)),
        Op::new(303, "rgba10_to_p210", rgb(RGBA, 10, U16), bip(S422, 10, false), Model::Yuv, Call::C19(rgba10_to_p210)),
        Op::new(304, "rgba10_to_p410", rgb(RGBA, 10, U16), bip(S444, 10, false), Model::Yuv, Call::C19(rgba10_to_p410)),
        Op::new(305, "rgba12_to_p012", rgb(RGBA, 12, U16), bip(S420, 12, false), Model::Yuv, Call::C19(rgba12_to_p012)),
        Op::new(306, "rgba12_to_p212", rgb(RGBA, 12, U16), bip(S422, 12, false), Model::Yuv, Call::C19(rgba12_to_p212)),
        Op::new(307, "rgba12_to_p412", rgb(RGBA, 12, U16), bip(S444, 12, false), Model::Yuv, Call::C19(rgba12_to_p412)),
        Op::new(308, "rgba16_to_p016", rgb(RGBA, 16, U16), bip(S420, 16, false), Model::Yuv, Call::C19(rgba16_to_p016)),
        Op::new(309, "rgba16_to_p216", rgb(RGBA, 16, U16), bip(S422, 16, false), Model::Yuv, Call::C19(rgba16_to_p216)),
        Op::new(310, "uyvy422_to_bgr", packed(UYVY, 8), rgb(BGR, 8, U8), Model::Yuv, Call::C20(uyvy422_to_bgr)),
        Op::new(311, "uyvy422_to_bgra", packed(UYVY, 8), rgb(BGRA, 8, U8), Model::Yuv, Call::C20(uyvy422_to_bgra)),
        Op::new(312, "uyvy422_to_rgb", packed(UYVY, 8), rgb(RGB, 8, U8), Model::Yuv, Call::C20(uyvy422_to_rgb)),
        Op::new(313, "uyvy422_to_rgba", packed(UYVY, 8), rgb(RGBA, 8, U8), Model::Yuv, Call::C20(uyvy422_to_rgba)),
        Op::new(314, "vyuy422_to_bgr", packed(VYUY, 8), rgb(BGR, 8, U8), Model::Yuv, Call::C20(vyuy422_to_bgr)),
        Op::new(315, "vyuy422_to_bgra", packed(VYUY, 8), rgb(BGRA, 8, U8), Model::Yuv, Call::C20(vyuy422_to_bgra)),
        Op::new(316, "vyuy422_to_rgb", packed(VYUY, 8), rgb(RGB, 8, U8), Model::Yuv, Call::C20(vyuy422_to_rgb)),
        Op::new(317, "vyuy422_to_rgba", packed(VYUY, 8), rgb(RGBA, 8, U8), Model::Yuv, Call::C20(vyuy422_to_rgba)),
        Op::new(318, "yuyv422_to_bgr", packed(YUYV, 8), rgb(BGR, 8, U8), Model::Yuv, Call::C20(yuyv422_to_bgr)),
        Op::new(319, "yuyv422_to_bgra", packed(YUYV, 8), rgb(BGRA, 8, U8), Model::Yuv, Call::C20(yuyv422_to_bgra)),
        Op::new(320, "yuyv422_to_rgb", packed(YUYV, 8), rgb(RGB, 8, U8), Model::Yuv, Call::C20(yuyv422_to_rgb)),
        Op::new(321, "yuyv422_to_rgba", packed(YUYV, 8), rgb(RGBA, 8, U8), Model::Yuv, Call::C20(yuyv422_to_rgba)),
        Op::new(322, "yvyu422_to_bgr", packed(YVYU, 8), rgb(BGR, 8, U8), Model::Yuv, Call::C20(yvyu422_to_bgr)),
        Op::new(323, "yvyu422_to_bgra", packed(YVYU, 8), rgb(BGRA, 8, U8), Model::Yuv, Call::C20(yvyu422_to_bgra)),
        Op::new(324, "yvyu422_to_rgb", packed(YVYU, 8), rgb(RGB, 8, U8), Model::Yuv, Call::C20(yvyu422_to_rgb)),
        Op::new(325, "yvyu422_to_rgba", packed(YVYU, 8), rgb(RGBA, 8, U8), Model::Yuv, Call::C20(yvyu422_to_rgba)),
        Op::new(326, "uyvy422_to_yuv420_p16", packed(UYVY, 16), planar(S420, 16, false, false), Model::Repack, Call::C21(uyvy422_to_yuv420_p16)),
        Op::new(327, "uyvy422_to_yuv422_p16", packed(UYVY, 16), planar(S422, 16, false, false), Model::Repack, Call::C21(uyvy422_to_yuv422_p16)),
        Op::new(328, "uyvy422_to_yuv444_p16", packed(UYVY, 16), planar(S444, 16, false, false), Model::Repack, Call::C21(uyvy422_to_yuv444_p16)),
        Op::new(329, "vyuy422_to_yuv420_p16", packed(VYUY, 16), planar(S420, 16, false, false), Model::Repack, Call::C21(vyuy422_to_yuv420_p16)),
        Op::new(330, "vyuy422_to_yuv422_p16", packed(VYUY, 16), planar(S422, 16, false, false), Model::Repack, Call::C21(vyuy422_to_yuv422_p16)),
        Op::new(331, "vyuy422_to_yuv444_p16", packed(VYUY, 16), planar(S444, 16, false, false), Model::Repack, Call::C21(vyuy422_to_yuv444_p16)),
        Op::new(332, "yuyv422_to_yuv420_p16", packed(YUYV, 16), planar(S420, 16, false, false), Model::Repack, Call::C21(yuyv422_to_yuv420_p16)),
        Op::new(333, "yuyv422_to_yuv422_p16", packed(YUYV, 16), planar(S422, 16, false, false), Model::Repack, Call::C21(yuyv422_to_yuv422_p16)),
        Op::new(334, "yuyv422_to_yuv444_p16", packed(YUYV, 16), planar(S444, 16, false, false), Model::Repack, Call::C21(yuyv422_to_yuv444_p16)),
        Op::new(335, "yvyu422_to_yuv420_p16", packed(YVYU, 16), planar(S420, 16, false, false), Model::Repack, Call::C21(yvyu422_to_yuv420_p16)),
        Op::new(336, "yvyu422_to_yuv422_p16", packed(YVYU, 16), planar(S422, 16, false, false), Model::Repack, Call::C21(yvyu422_to_yuv422_p16)),
        Op::new(337, "yvyu422_to_yuv444_p16", packed(YVYU, 16), planar(S444, 16, false, false), Model::Repack, Call::C21(yvyu422_to_yuv444_p16)),
        Op::new(338, "yuv420_to_uyvy422_p16", planar(S420, 16, false, false), packed(UYVY, 16), Model::Repack, Call::C22(yuv420_to_uyvy422_p16)),
        Op::new(339, "yuv420_to_vyuy422_p16", planar(S420, 16, false, false), packed(VYUY, 16), Model::Repack, Call::C22(yuv420_to_vyuy422_p16)),
        Op::new(340, "yuv420_to_yuyv422_p16", planar(S420, 16, false, false), packed(YUYV, 16), Model::Repack, Call::C22(yuv420_to_yuyv422_p16)),
        Op::new(341, "yuv420_to_yvyu422_p16", planar(S420, 16, false, false), packed(YVYU, 16), Model::Repack, Call::C22(yuv420_to_yvyu422_p16)),
        Op::new(342, "yuv422_to_uyvy422_p16", planar(S422, 16, false, false), packed(UYVY, 16), Model::Repack, Call::C22(yuv422_to_uyvy422_p16)),
        Op::new(343, "yuv422_to_vyuy422_p16", planar(S422, 16, false, false), packed(VYUY, 16), Model::Repack, Call::C22(yuv422_to_vyuy422_p16)),
        Op::new(344, "yuv422_to_yuyv422_p16", planar(S422, 16, false, false), packed(YUYV, 16), Model::Repack, Call::C22(yuv422_to_yuyv422_p16)),
        Op::new(345, "yuv422_to_yvyu422_p16", planar(S422, 16, false, false), packed(YVYU, 16), Model::Repack, Call::C22(yuv422_to_yvyu422_p16)),
        Op::new(346, "yuv444_to_uyvy422_p16", planar(S444, 16, false, false), packed(UYVY, 16), Model::Repack, Call::C22(yuv444_to_uyvy422_p16)),
        Op::new(347, "yuv444_to_vyuy422_p16", planar(S444, 16, false, false), packed(VYUY, 16), Model::Repack, Call::C22(yuv444_to_vyuy422_p16)),
        Op::new(348, "yuv444_to_yuyv422_p16", planar(S444, 16, false, false), packed(YUYV, 16), Model::Repack, Call::C22(yuv444_to_yuyv422_p16)),
        Op::new(349, "yuv444_to_yvyu422_p16", planar(S444, 16, false, false), packed(YVYU, 16), Model::Repack, Call::C22(yuv444_to_yvyu422_p16)),
        Op::new(350, "uyvy422_to_rgb_p16", packed(UYVY, 16), rgb(RGB, 16, U16), Model::Yuv, Call::C23(uyvy422_to_rgb_p16)),
        Op::new(351, "uyvy422_to_rgba_p16", packed(UYVY, 16), rgb(RGBA, 16, U16), Model::Yuv, Call::C23(uyvy422_to_rgba_p16)),
        Op::new(352, "vyuy422_to_rgb_p16", packed(VYUY, 16), rgb(RGB, 16, U16), Model::Yuv, Call::C23(vyuy422_to_rgb_p16)),
        Op::new(353, "vyuy422_to_rgba_p16", packed(VYUY, 16), rgb(RGBA, 16, U16), Model::Yuv, Call::C23(vyuy422_to_rgba_p16)),
        Op::new(354, "yuyv422_to_rgb_p16", packed(YUYV, 16), rgb(RGB, 16, U16), Model::Yuv, Call::C23(yuyv422_to_rgb_p16)),
        Op::new(355, "yuyv422_to_rgba_p16", packed(YUYV, 16), rgb(RGBA, 16, U16), Model::Yuv, Call::C23(yuyv422_to_rgba_p16)),
        Op::new(356, "yvyu422_to_rgb_p16", packed(YVYU, 16), rgb(RGB, 16, U16), Model::Yuv, Call::C23(yvyu422_to_rgb_p16)),
        Op::new(357, "yvyu422_to_rgba_p16", packed(YVYU, 16), rgb(RGBA, 16, U16), Model::Yuv, Call::C23(yvyu422_to_rgba_p16)),
        Op::new(358, "bgr_to_sharp_yuv420", rgb(BGR, 8, U8), planar(S420, 8, false, false), Model::Sharp, Call::C24(bgr_to_sharp_yuv420)),
        Op::new(359, "bgr_to_sharp_yuv422", rgb(BGR, 8, U8), planar(S422, 8, false, false), Model::Sharp, Call::C24(bgr_to_sharp_yuv422)),
        Op::new(360, "bgra_to_sharp_yuv420", rgb(BGRA, 8, U8), planar(S420, 8, false, false), Model::Sharp, Call::C24(bgra_to_sharp_yuv420)),
        Op::new(361, "bgra_to_sharp_yuv422", rgb(BGRA, 8, U8), planar(S422, 8, false, false), Model::Sharp, Call::C24(bgra_to_sharp_yuv422)),
        Op::new(362, "rgb_to_sharp_yuv420", rgb(RGB, 8, U8), planar(S420, 8, false, false), Model::Sharp, Call::C24(rgb_to_sharp_yuv420)),
        Op::new(363, "rgb_to_sharp_yuv422", rgb(RGB, 8, U8), planar(S422, 8, false, false), Model::Sharp, Call::C24(rgb_to_sharp_yuv422)),
        Op::new(364, "rgba_to_sharp_yuv420", rgb(RGBA, 8, U8), planar(S420, 8, false, false), Model::Sharp, Call::C24(rgba_to_sharp_yuv420)),
        Op::new(365, "rgba_to_sharp_yuv422", rgb(RGBA, 8, U8), planar(S422, 8, false, false), Model::Sharp, Call::C24(rgba_to_sharp_yuv422)),
        Op::new(366, "gb10_to_rgb_f16", planar(S444, 10, false, false), rgb(RGB, 16, F16), Model::Gbr, Call::C25(gb10_to_rgb_f16)),
        Op::new(367, "gb10_to_rgba_f16", planar(S444, 10, false, false), rgb(RGBA, 16, F16), Model::Gbr, Call::C25(gb10_to_rgba_f16)),
        Op::new(368, "gb12_to_rgb_f16", planar(S444, 12, false, false), rgb(RGB, 16, F16), Model::Gbr, Call::C25(gb12_to_rgb_f16)),
        Op::new(369, "gb12_to_rgba_f16", planar(S444, 12, false, false), rgb(RGBA, 16, F16), Model::Gbr, Call::C25(gb12_to_rgba_f16)),
        Op::new(370, "gb14_to_rgb_f16", planar(S444, 14, false, false), rgb(RGB, 16, F16), Model::Gbr, Call::C25(gb14_to_rgb_f16)),
        Op::new(371, "gb14_to_rgba_f16", planar(S444, 14, false, false), rgb(RGBA, 16, F16), Model::Gbr, Call::C25(gb14_to_rgba_f16)),
        Op::new(372, "gb16_to_rgb_f16", planar(S444, 16, false, false), rgb(RGB, 16, F16), Model::Gbr, Call::C25(gb16_to_rgb_f16)),
        Op::new(373, "gb16_to_rgba_f16", planar(S444, 16, false, false), rgb(RGBA, 16, F16), Model::Gbr, Call::C25(gb16_to_rgba_f16)),
        Op::new(374, "gb10_alpha_to_rgba_f16", planar(S444, 10, true, false), rgb(RGBA, 16, F16), Model::Gbr, Call::C26(gb10_alpha_to_rgba_f16)),
        Op::new(375, "gb12_alpha_to_rgba_f16", planar(S444, 12, true, false), rgb(RGBA, 16, F16), Model::Gbr, Call::C26(gb12_alpha_to_rgba_f16)),
        Op::new(376, "gb14_alpha_to_rgba_f16", planar(S444, 14, true, false), rgb(RGBA, 16, F16), Model::Gbr, Call::C26(gb14_alpha_to_rgba_f16)),
        Op::new(377, "gb16_alpha_to_rgba_f16", planar(S444, 16, true, false), rgb(RGBA, 16, F16), Model::Gbr, Call::C26(gb16_alpha_to_rgba_f16)),
        Op::new(378, "y010_to_rgb10", gray(10, false), rgb(RGB, 10, U16), Model::Yuv, Call::C27(y010_to_rgb10)),
        Op::new(379, "y010_to_rgba10", gray(10, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C27(y010_to_rgba10)),
        Op::new(380, "y012_to_rgb12", gray(12, false), rgb(RGB, 12, U16), Model::Yuv, Call::C27(y012_to_rgb12)),
        Op::new(381, "y012_to_rgba12", gray(12, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C27(y012_to_rgba12)),
        Op::new(382, "y014_to_rgb14", gray(14, false), rgb(RGB, 14, U16), Model::Yuv, Call::C27(y014_to_rgb14)),
        Op::new(383, "y014_to_rgba14", gray(14, false), rgb(RGBA, 14, U16), Model::Yuv, Call::C27(y014_to_rgba14)),
        Op::new(384, "y016_to_rgb16", gray(16, false), rgb(RGB, 16, U16), Model::Yuv, Call::C27(y016_to_rgb16)),
        Op::new(385, "y016_to_rgba16", gray(16, false), rgb(RGBA, 16, U16), Model::Yuv, Call::C27(y016_to_rgba16)),
        Op::new(386, "y010_alpha_to_rgba10", gray(10, true), rgb(RGBA, 10, U16), Model::Yuv, Call::C28(y010_alpha_to_rgba10)),
        Op::new(387, "y012_alpha_to_rgba12", gray(12, true), rgb(RGBA, 12, U16), Model::Yuv, Call::C28(y012_alpha_to_rgba12)),
        Op::new(388, "y014_alpha_to_rgba14", gray(14, true), rgb(RGBA, 14, U16), Model::Yuv, Call::C28(y014_alpha_to_rgba14)),
        Op::new(389, "y016_alpha_to_rgba16", gray(16, true), rgb(RGBA, 16, U16), Model::Yuv, Call::C28(y016_alpha_to_rgba16)),
        Op::new(390, "yuv400_alpha_to_bgra", gray(8, true), rgb(BGRA, 8, U8), Model::Yuv, Call::C29(yuv400_alpha_to_bgra)),
        Op::new(391, "yuv400_alpha_to_rgba", gray(8, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C29(yuv400_alpha_to_rgba)),
        Op::new(392, "i010_alpha_to_rgba", planar(S420, 10, true, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i010_alpha_to_rgba)),
        Op::new(393, "i012_alpha_to_rgba", planar(S420, 12, true, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i012_alpha_to_rgba)),
        Op::new(394, "i210_alpha_to_rgba", planar(S422, 10, true, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i210_alpha_to_rgba)),
        Op::new(395, "i212_alpha_to_rgba", planar(S422, 12, true, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i212_alpha_to_rgba)),
        Op::new(396, "i410_alpha_to_rgba", planar(S444, 10, true, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i410_alpha_to_rgba)),
        Op::new(397, "i412_alpha_to_rgba", planar(S444, 12, true, false), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i412_alpha_to_rgba)),
        Op::new(398, "i010_be_alpha_to_rgba", planar(S420, 10, true, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i010_be_alpha_to_rgba)),
        Op::new(399, "i012_be_alpha_to_rgba", planar(S420, 12, true, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i012_be_alpha_to_rgba)),
        Op::new(400, "i210_alpha_be_to_rgba", planar(S422, 10, true, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i210_alpha_be_to_rgba)),
        Op::new(401, "i212_be_alpha_to_rgba", planar(S422, 12, true, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i212_be_alpha_to_rgba)),
        Op::new(402, "i410_be_alpha_to_rgba", planar(S444, 10, true, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i410_be_alpha_to_rgba)),
        Op::new(403, "i412_be_alpha_to_rgba", planar(S444, 12, true, true), rgb(RGBA, 8, U8), Model::Yuv, Call::C30(i412_be_alpha_to_rgba)),
        Op::new(404, "i010_alpha_to_rgba10", planar(S420, 10, true, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C31(i010_alpha_to_rgba10)),
        Op::new(405, "i012_alpha_to_rgba12", planar(S420, 12, true, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C31(i012_alpha_to_rgba12)),
        Op::new(406, "i014_alpha_to_rgba14", planar(S420, 14, true, false), rgb(RGBA, 14, U16), Model::Yuv, Call::C31(i014_alpha_to_rgba14)),
        Op::new(407, "i210_alpha_to_rgba10", planar(S422, 10, true, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C31(i210_alpha_to_rgba10)),
        Op::new(408, "i212_alpha_to_rgba12", planar(S422, 12, true, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C31(i212_alpha_to_rgba12)),
        Op::new(409, "i214_alpha_to_rgba14", planar(S422, 14, true, false), rgb(RGBA, 14, U16), Model::Yuv, Call::C31(i214_alpha_to_rgba14)),
        Op::new(410, "i410_alpha_to_rgba10", planar(S444, 10, true, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C31(i410_alpha_to_rgba10)),
        Op::new(411, "i412_alpha_to_rgba12", planar(S444, 12, true, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C31(i412_alpha_to_rgba12)),
        Op::new(412, "i414_alpha_to_rgba14", planar(S444, 14, true, false), rgb(RGBA, 14, U16), Model::Yuv, Call::C31(i414_alpha_to_rgba14)),
        Op::new(413, "i010_be_alpha_to_rgba10", planar(S420, 10, true, true), rgb(RGBA, 10, U16), Model::Yuv, Call::C31(i010_be_alpha_to_rgba10)),
        Op::new(414, "i012_be_alpha_to_rgba12", planar(S420, 12, true, true), rgb(RGBA, 12, U16), Model::Yuv, Call::C31(i012_be_alpha_to_rgba12)),
        Op::new(415, "i014_be_alpha_to_rgba14", planar(S420, 14, true, true), rgb(RGBA, 14, U16), Model::Yuv, Call::C31(i014_be_alpha_to_rgba14)),
        Op::new(416, "i210_alpha_be_to_rgba10", planar(S422, 10, true, true), rgb(RGBA, 10, U16), Model::Yuv, Call::C31(i210_alpha_be_to_rgba10)),
        Op::new(417, "i212_be_alpha_to_rgba12", planar(S422, 12, true, true), rgb(RGBA, 12, U16), Model::Yuv, Call::C31(i212_be_alpha_to_rgba12)),
        Op::new(418, "i214_be_alpha_to_rgba14", planar(S422, 14, true, true), rgb(RGBA, 14, U16), Model::Yuv, Call::C31(i214_be_alpha_to_rgba14)),
        Op::new(419, "i410_be_alpha_to_rgba10", planar(S444, 10, true, true), rgb(RGBA, 10, U16), Model::Yuv, Call::C31(i410_be_alpha_to_rgba10)),
        Op::new(420, "i412_be_alpha_to_rgba12", planar(S444, 12, true, true), rgb(RGBA, 12, U16), Model::Yuv, Call::C31(i412_be_alpha_to_rgba12)),
        Op::new(421, "i414_be_alpha_to_rgba14", planar(S444, 14, true, true), rgb(RGBA, 14, U16), Model::Yuv, Call::C31(i414_be_alpha_to_rgba14)),
        Op::new(422, "i010_be_to_rgb10", planar(S420, 10, false, true), rgb(RGB, 10, U16), Model::Yuv, Call::C32(i010_be_to_rgb10)),
        Op::new(423, "i010_be_to_rgba10", planar(S420, 10, false, true), rgb(RGBA, 10, U16), Model::Yuv, Call::C32(i010_be_to_rgba10)),
        Op::new(424, "i012_be_to_rgb12", planar(S420, 12, false, true), rgb(RGB, 12, U16), Model::Yuv, Call::C32(i012_be_to_rgb12)),
        Op::new(425, "i012_be_to_rgba12", planar(S420, 12, false, true), rgb(RGBA, 12, U16), Model::Yuv, Call::C32(i012_be_to_rgba12)),
        Op::new(426, "i014_be_to_rgb14", planar(S420, 14, false, true), rgb(RGB, 14, U16), Model::Yuv, Call::C32(i014_be_to_rgb14)),
        Op::new(427, "i014_be_to_rgba14", planar(S420, 14, false, true), rgb(RGBA, 14, U16), Model::Yuv, Call::C32(i014_be_to_rgba14)),
        Op::new(428, "i016_be_to_rgb16", planar(S420, 16, false, true), rgb(RGB, 16, U16), Model::Yuv, Call::C32(i016_be_to_rgb16)),
        Op::new(429, "i016_be_to_rgba16", planar(S420, 16, false, true), rgb(RGBA, 16, U16), Model::Yuv, Call::C32(i016_be_to_rgba16)),
        Op::new(430, "i210_be_to_rgb10", planar(S422, 10, false, true), rgb(RGB, 10, U16), Model::Yuv, Call::C32(i210_be_to_rgb10)),
        Op::new(431, "i210_be_to_rgba10", planar(S422, 10, false, true), rgb(RGBA, 10, U16), Model::Yuv, Call::C32(i210_be_to_rgba10)),
        Op::new(432, "i212_be_to_rgb12", planar(S422, 12, false, true), rgb(RGB, 12, U16), Model::Yuv, Call::C32(i212_be_to_rgb12)),
        Op::new(433, "i212_be_to_rgba12", planar(S422, 12, false, true), rgb(RGBA, 12, U16), Model::Yuv, Call::C32(i212_be_to_rgba12)),
        Op::new(434, "i214_be_to_rgb14", planar(S422, 14, false, true), rgb(RGB, 14, U16), Model::Yuv, Call::C32(i214_be_to_rgb14)),
        Op::new(435, "i214_be_to_rgba14", planar(S422, 14, false, true), rgb(RGBA, 14, U16), Model::Yuv, Call::C32(i214_be_to_rgba14)),
        Op::new(436, "i216_be_to_rgb16", planar(S422, 16, false, true), rgb(RGB, 16, U16), Model::Yuv, Call::C32(i216_be_to_rgb16)),
        Op::new(437, "i216_be_to_rgba16", planar(S422, 16, false, true), rgb(RGBA, 16, U16), Model::Yuv, Call::C32(i216_be_to_rgba16)),
        Op::new(438, "i410_be_to_rgb10", planar(S444, 10, false, true), rgb(RGB, 10, U16), Model::Yuv, Call::C32(i410_be_to_rgb10)),
        Op::new(439, "i410_be_to_rgba10", planar(S444, 10, false, true), rgb(RGBA, 10, U16), Model::Yuv, Call::C32(i410_be_to_rgba10)),
        Op::new(440, "i412_be_to_rgb12", planar(S444, 12, false, true), rgb(RGB, 12, U16), Model::Yuv, Call::C32(i412_be_to_rgb12)),
        Op::new(441, "i412_be_to_rgba12", planar(S444, 12, false, true), rgb(RGBA, 12, U16), Model::Yuv, Call::C32(i412_be_to_rgba12)),
        Op::new(442, "i414_be_to_rgb14", planar(S444, 14, false, true), rgb(RGB, 14, U16), Model::Yuv, Call::C32(i414_be_to_rgb14)),
        Op::new(443, "i414_be_to_rgba14", planar(S444, 14, false, true), rgb(RGBA, 14, U16), Model::Yuv, Call::C32(i414_be_to_rgba14)),
        Op::new(444, "i416_be_to_rgb16", planar(S444, 16, false, true), rgb(RGB, 16, U16), Model::Yuv, Call::C32(i416_be_to_rgb16)),
        Op::new(445, "i416_be_to_rgba16", planar(S444, 16, false, true), rgb(RGBA, 16, U16), Model::Yuv, Call::C32(i416_be_to_rgba16)),
        Op::new(446, "i010_to_rgb10", planar(S420, 10, false, false), rgb(RGB, 10, U16), Model::Yuv, Call::C32(i010_to_rgb10)),
        Op::new(447, "i010_to_rgba10", planar(S420, 10, false, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C32(i010_to_rgba10)),
        Op::new(448, "i012_to_rgb12", planar(S420, 12, false, false), rgb(RGB, 12, U16), Model::Yuv, Call::C32(i012_to_rgb12)),
        Op::new(449, "i012_to_rgba12", planar(S420, 12, false, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C32(i012_to_rgba12)),
        Op::new(450, "i014_to_rgb14", planar(S420, 14, false, false), rgb(RGB, 14, U16), Model::Yuv, Call::C32(i014_to_rgb14)),
        Op::new(451, "i014_to_rgba14", planar(S420, 14, false, false), rgb(RGBA, 14, U16), Model::Yuv, Call::C32(i014_to_rgba14)),
        Op::new(452, "i016_to_rgb16", planar(S420, 16, false, false), rgb(RGB, 16, U16), Model::Yuv, Call::C32(i016_to_rgb16)),
        Op::new(453, "i016_to_rgba16", planar(S420, 16, false, false), rgb(RGBA, 16, U16), Model::Yuv, Call::C32(i016_to_rgba16)),
        Op::new(454, "i210_to_rgb10", planar(S422, 10, false, false), rgb(RGB, 10, U16), Model::Yuv, Call::C32(i210_to_rgb10)),
        Op::new(455, "i210_to_rgba10", planar(S422, 10, false, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C32(i210_to_rgba10)),
        Op::new(456, "i212_to_rgb12", planar(S422, 12, false, false), rgb(RGB, 12, U16), Model::Yuv, Call::C32(i212_to_rgb12)),
        Op::new(457, "i212_to_rgba12", planar(S422, 12, false, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C32(i212_to_rgba12)),
        Op::new(458, "i214_to_rgb14", planar(S422, 14, false, false), rgb(RGB, 14, U16), Model::Yuv, Call::C32(i214_to_rgb14)),
        Op::new(459, "i214_to_rgba14", planar(S422, 14, false, false), rgb(RGBA, 14, U16), Model::Yuv, Call::C32(i214_to_rgba14)),
        Op::new(460, "i216_to_rgb16", planar(S422, 16, false, false), rgb(RGB, 16, U16), Model::Yuv, Call::C32(i216_to_rgb16)),
        Op::new(461, "i216_to_rgba16", planar(S422, 16, false, false), rgb(RGBA, 16, U16), Model::Yuv, Call::C32(i216_to_rgba16)),
        Op::new(462, "i410_to_rgb10", planar(S444, 10, false, false), rgb(RGB, 10, U16), Model::Yuv, Call::C32(i410_to_rgb10)),
        Op::new(463, "i410_to_rgba10", planar(S444, 10, false, false), rgb(RGBA, 10, U16), Model::Yuv, Call::C32(i410_to_rgba10)),
        Op::new(464, "i412_to_rgb12", planar(S444, 12, false, false), rgb(RGB, 12, U16), Model::Yuv, Call::C32(i412_to_rgb12)),
        Op::new(465, "i412_to_rgba12", planar(S444, 12, false, false), rgb(RGBA, 12, U16), Model::Yuv, Call::C32(i412_to_rgba12)),
        Op::new(466, "i414_to_rgb14", planar(S444, 14, false, false), rgb(RGB, 14, U16), Model::Yuv, Call::C32(i414_to_rgb14)),
        Op::new(467, "i414_to_rgba14", planar(S444, 14, false, false), rgb(RGBA, 14, U16), Model::Yuv, Call::C32(i414_to_rgba14)),
        Op::new(468, "i416_to_rgb16", planar(S444, 16, false, false), rgb(RGB, 16, U16), Model::Yuv, Call::C32(i416_to_rgb16)),
        Op::new(469, "i416_to_rgba16", planar(S444, 16, false, false), rgb(RGBA, 16, U16), Model::Yuv, Call::C32(i416_to_rgba16)),
        Op::new(470, "i010_alpha_to_rgba_f16", planar(S420, 10, true, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C33(i010_alpha_to_rgba_f16)),
        Op::new(471, "i012_alpha_to_rgba_f16", planar(S420, 12, true, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C33(i012_alpha_to_rgba_f16)),
        Op::new(472, "i014_alpha_to_rgba_f16", planar(S420, 14, true, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C33(i014_alpha_to_rgba_f16)),
        Op::new(473, "i210_alpha_to_rgba_f16", planar(S422, 10, true, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C33(i210_alpha_to_rgba_f16)),
        Op::new(474, "i212_alpha_to_rgba_f16", planar(S422, 12, true, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C33(i212_alpha_to_rgba_f16)),
        Op::new(475, "i214_alpha_to_rgba_f16", planar(S422, 14, true, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C33(i214_alpha_to_rgba_f16)),
        Op::new(476, "i410_alpha_to_rgba_f16", planar(S444, 10, true, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C33(i410_alpha_to_rgba_f16)),
        Op::new(477, "i412_alpha_to_rgba_f16", planar(S444, 12, true, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C33(i412_alpha_to_rgba_f16)),
        Op::new(478, "i414_alpha_to_rgba_f16", planar(S444, 14, true, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C33(i414_alpha_to_rgba_f16)),
        Op::new(479, "ab30_to_rgb8", rgb30(AB30), rgb(RGB, 8, U8), Model::Rgb30, Call::C34(ab30_to_rgb8)),
        Op::new(480, "ar30_to_rgb8", rgb30(AR30), rgb(RGB, 8, U8), Model::Rgb30, Call::C34(ar30_to_rgb8)),
        Op::new(481, "ar30_to_rgba8", rgb30(AR30), rgb(RGBA, 8, U8), Model::Rgb30, Call::C34(ar30_to_rgba8)),
        Op::new(482, "ba30_to_rgb8", rgb30(BA30), rgb(RGB, 8, U8), Model::Rgb30, Call::C34(ba30_to_rgb8)),
        Op::new(483, "ra30_to_rgb8", rgb30(RA30), rgb(RGB, 8, U8), Model::Rgb30, Call::C34(ra30_to_rgb8)),
        Op::new(484, "ra30_to_rgba8", rgb30(RA30), rgb(RGBA, 8, U8), Model::Rgb30, Call::C34(ra30_to_rgba8)),
        Op::new(485, "convert_plane16_to_f16", chan(1, 16, U16), chan(1, 16, F16), Model::ToF16, Call::C35(convert_plane16_to_f16)),
        Op::new(486, "convert_rgb16_to_f16", chan(3, 16, U16), chan(3, 16, F16), Model::ToF16, Call::C35(convert_rgb16_to_f16)),
        Op::new(487, "convert_rgba16_to_f16", chan(4, 16, U16), chan(4, 16, F16), Model::ToF16, Call::C35(convert_rgba16_to_f16)),
        Op::new(488, "convert_plane_f16_to_planar", chan(1, 16, F16), chan(1, 8, U8), Model::FromF16, Call::C36(convert_plane_f16_to_planar)),
        Op::new(489, "convert_rgb_f16_to_rgb", chan(3, 16, F16), chan(3, 8, U8), Model::FromF16, Call::C36(convert_rgb_f16_to_rgb)),
        Op::new(490, "convert_rgba_f16_to_rgba", chan(4, 16, F16), chan(4, 8, U8), Model::FromF16, Call::C36(convert_rgba_f16_to_rgba)),
        Op::new(491, "convert_plane_f16_to_planar16", chan(1, 16, F16), chan(1, 16, U16), Model::FromF16, Call::C37(convert_plane_f16_to_planar16)),
        Op::new(492, "convert_rgb_f16_to_rgb16", chan(3, 16, F16), chan(3, 16, U16), Model::FromF16, Call::C37(convert_rgb_f16_to_rgb16)),
        Op::new(493, "convert_rgba_f16_to_rgba16", chan(4, 16, F16), chan(4, 16, U16), Model::FromF16, Call::C37(convert_rgba_f16_to_rgba16)),
        Op::new(494, "convert_plane_to_f16", chan(1, 8, U8), chan(1, 16, F16), Model::ToF16, Call::C38(convert_plane_to_f16)),
        Op::new(495, "convert_rgb_to_f16", chan(3, 8, U8), chan(3, 16, F16), Model::ToF16, Call::C38(convert_rgb_to_f16)),
        Op::new(496, "convert_rgba_to_f16", chan(4, 8, U8), chan(4, 16, F16), Model::ToF16, Call::C38(convert_rgba_to_f16)),
        Op::new(497, "rotate_cbcr", chan(2, 8, U8), chan(2, 8, U8), Model::Rotate, Call::C39(rotate_cbcr)),
        Op::new(498, "rotate_plane", chan(1, 8, U8), chan(1, 8, U8), Model::Rotate, Call::C39(rotate_plane)),
        Op::new(499, "rotate_rgb", chan(3, 8, U8), chan(3, 8, U8), Model::Rotate, Call::C39(rotate_rgb)),
        Op::new(500, "rotate_rgba", chan(4, 8, U8), chan(4, 8, U8), Model::Rotate, Call::C39(rotate_rgba)),
        Op::new(501, "rotate_cbcr16", chan(2, 16, U16), chan(2, 16, U16), Model::Rotate, Call::C40(rotate_cbcr16)),
        Op::new(502, "rotate_plane16", chan(1, 16, U16), chan(1, 16, U16), Model::Rotate, Call::C40(rotate_plane16)),
        Op::new(503, "rotate_rgb16", chan(3, 16, U16), chan(3, 16, U16), Model::Rotate, Call::C40(rotate_rgb16)),
        Op::new(504, "rotate_rgba16", chan(4, 16, U16), chan(4, 16, U16), Model::Rotate, Call::C40(rotate_rgba16)),
        Op::new(505, "mirror_cbcr", chan(2, 8, U8), chan(2, 8, U8), Model::Mirror, Call::C41(mirror_cbcr)),
        Op::new(506, "mirror_plane", chan(1, 8, U8), chan(1, 8, U8), Model::Mirror, Call::C41(mirror_plane)),
        Op::new(507, "mirror_rgb", chan(3, 8, U8), chan(3, 8, U8), Model::Mirror, Call::C41(mirror_rgb)),
        Op::new(508, "mirror_rgba", chan(4, 8, U8), chan(4, 8, U8), Model::Mirror, Call::C41(mirror_rgba)),
        Op::new(509, "mirror_cbcr16", chan(2, 16, U16), chan(2, 16, U16), Model::Mirror, Call::C42(mirror_cbcr16)),
        Op::new(510, "mirror_plane16", chan(1, 16, U16), chan(1, 16, U16), Model::Mirror, Call::C42(mirror_plane16)),
        Op::new(511, "mirror_rgb16", chan(3, 16, U16), chan(3, 16, U16), Model::Mirror, Call::C42(mirror_rgb16)),
        Op::new(512, "mirror_rgba16", chan(4, 16, U16), chan(4, 16, U16), Model::Mirror, Call::C42(mirror_rgba16)),
        Op::new(513, "rgb10_to_ar30", rgb(RGB, 10, U16), rgb30(AR30), Model::Rgb30, Call::C43(rgb10_to_ar30)),
        Op::new(514, "rgb10_to_ra30", rgb(RGB, 10, U16), rgb30(RA30), Model::Rgb30, Call::C43(rgb10_to_ra30)),
        Op::new(515, "rgb12_to_ar30", rgb(RGB, 12, U16), rgb30(AR30), Model::Rgb30, Call::C43(rgb12_to_ar30)),
        Op::new(516, "rgb12_to_ra30", rgb(RGB, 12, U16), rgb30(RA30), Model::Rgb30, Call::C43(rgb12_to_ra30)),
        Op::new(517, "rgba10_to_ar30", rgb(RGBA, 10, U16), rgb30(AR30), Model::Rgb30, Call::C43(rgba10_to_ar30)),
        Op::new(518, "rgba10_to_ra30", rgb(RGBA, 10, U16), rgb30(RA30), Model::Rgb30, Call::C43(rgba10_to_ra30)),
        Op::new(519, "rgba12_to_ar30", rgb(RGBA, 12, U16), rgb30(AR30), Model::Rgb30, Call::C43(rgba12_to_ar30)),
        Op::new(520, "rgba12_to_ra30", rgb(RGBA, 12, U16), rgb30(RA30), Model::Rgb30, Call::C43(rgba12_to_ra30)),
        Op::new(521, "rgb8_to_ar30", rgb(RGB, 8, U8), rgb30(AR30), Model::Rgb30, Call::C44(rgb8_to_ar30)),
        Op::new(522, "rgb8_to_ra30", rgb(RGB, 8, U8), rgb30(RA30), Model::Rgb30, Call::C44(rgb8_to_ra30)),
        Op::new(523, "rgba8_to_ar30", rgb(RGBA, 8, U8), rgb30(AR30), Model::Rgb30, Call::C44(rgba8_to_ar30)),
        Op::new(524, "rgba8_to_ra30", rgb(RGBA, 8, U8), rgb30(RA30), Model::Rgb30, Call::C44(rgba8_to_ra30)),
        Op::new(525, "bgr_to_bgra", rgb(BGR, 8, U8), rgb(BGRA, 8, U8), Model::Shuffle, Call::C45(bgr_to_bgra)),
        Op::new(526, "bgr_to_rgb", rgb(BGR, 8, U8), rgb(RGB, 8, U8), Model::Shuffle, Call::C45(bgr_to_rgb)),
        Op::new(527, "bgr_to_rgba", rgb(BGR, 8, U8), rgb(RGBA, 8, U8), Model::Shuffle, Call::C45(bgr_to_rgba)),
        Op::new(528, "bgra_to_bgr", rgb(BGRA, 8, U8), rgb(BGR, 8, U8), Model::Shuffle, Call::C45(bgra_to_bgr)),
        Op::new(529, "bgra_to_rgb", rgb(BGRA, 8, U8), rgb(RGB, 8, U8), Model::Shuffle, Call::C45(bgra_to_rgb)),
        Op::new(530, "bgra_to_rgba", rgb(BGRA, 8, U8), rgb(RGBA, 8, U8), Model::Shuffle, Call::C45(bgra_to_rgba)),
        Op::new(531, "rgb_to_bgr", rgb(RGB, 8, U8), rgb(BGR, 8, U8), Model::Shuffle, Call::C45(rgb_to_bgr)),
        Op::new(532, "rgb_to_bgra", rgb(RGB, 8, U8), rgb(BGRA, 8, U8), Model::Shuffle, Call::C45(rgb_to_bgra)),
        Op::new(533, "rgb_to_rgba", rgb(RGB, 8, U8), rgb(RGBA, 8, U8), Model::Shuffle, Call::C45(rgb_to_rgba)),
        Op::new(534, "rgba_to_bgr", rgb(RGBA, 8, U8), rgb(BGR, 8, U8), Model::Shuffle, Call::C45(rgba_to_bgr)),
        Op::new(535, "rgba_to_bgra", rgb(RGBA, 8, U8), rgb(BGRA, 8, U8), Model::Shuffle, Call::C45(rgba_to_bgra)),
        Op::new(536, "rgba_to_rgb", rgb(RGBA, 8, U8), rgb(RGB, 8, U8), Model::Shuffle, Call::C45(rgba_to_rgb)),
        Op::new(537, "p010_to_ar30", bip(S420, 10, false), rgb30(AR30), Model::Yuv, Call::C46(p010_to_ar30)),
        Op::new(538, "p010_to_ra30", bip(S420, 10, false), rgb30(RA30), Model::Yuv, Call::C46(p010_to_ra30)),
        Op::new(539, "p012_to_ar30", bip(S420, 12, false), rgb30(AR30), Model::Yuv, Call::C46(p012_to_ar30)),
        Op::new(540, "p012_to_ra30", bip(S420, 12, false), rgb30(RA30), Model::Yuv, Call::C46(p012_to_ra30)),
        Op::new(541, "p210_to_ar30", bip(S422, 10, false), rgb30(AR30), Model::Yuv, Call::C46(p210_to_ar30)),
        Op::new(542, "p210_to_ra30", bip(S422, 10, false), rgb30(RA30), Model::Yuv, Call::C46(p210_to_ra30)),
        Op::new(543, "p212_to_ar30", bip(S422, 12, false), rgb30(AR30), Model::Yuv, Call::C46(p212_to_ar30)),
        Op::new(544, "p212_to_ra30", bip(S422, 12, false), rgb30(RA30), Model::Yuv, Call::C46(p212_to_ra30)),
        Op::new(545, "i010_to_ar30", planar(S420, 10, false, false), rgb30(AR30), Model::Yuv, Call::C47(i010_to_ar30)),
        Op::new(546, "i010_to_ra30", planar(S420, 10, false, false), rgb30(RA30), Model::Yuv, Call::C47(i010_to_ra30)),
        Op::new(547, "i012_to_ar30", planar(S420, 12, false, false), rgb30(AR30), Model::Yuv, Call::C47(i012_to_ar30)),
        Op::new(548, "i012_to_ra30", planar(S420, 12, false, false), rgb30(RA30), Model::Yuv, Call::C47(i012_to_ra30)),
        Op::new(549, "i014_to_ar30", planar(S420, 14, false, false), rgb30(AR30), Model::Yuv, Call::C47(i014_to_ar30)),
        Op::new(550, "i014_to_ra30", planar(S420, 14, false, false), rgb30(RA30), Model::Yuv, Call::C47(i014_to_ra30)),
        Op::new(551, "i210_to_ar30", planar(S422, 10, false, false), rgb30(AR30), Model::Yuv, Call::C47(i210_to_ar30)),
        Op::new(552, "i210_to_ra30", planar(S422, 10, false, false), rgb30(RA30), Model::Yuv, Call::C47(i210_to_ra30)),
        Op::new(553, "i212_to_ar30", planar(S422, 12, false, false), rgb30(AR30), Model::Yuv, Call::C47(i212_to_ar30)),
        Op::new(554, "i212_to_ra30", planar(S422, 12, false, false), rgb30(RA30), Model::Yuv, Call::C47(i212_to_ra30)),
        Op::new(555, "i214_to_ar30", planar(S422, 14, false, false), rgb30(AR30), Model::Yuv, Call::C47(i214_to_ar30)),
        Op::new(556, "i214_to_ra30", planar(S422, 14, false, false), rgb30(RA30), Model::Yuv, Call::C47(i214_to_ra30)),
        Op::new(557, "i410_to_ar30", planar(S444, 10, false, false), rgb30(AR30), Model::Yuv, Call::C47(i410_to_ar30)),
        Op::new(558, "i410_to_ra30", planar(S444, 10, false, false), rgb30(RA30), Model::Yuv, Call::C47(i410_to_ra30)),
        Op::new(559, "i412_to_ar30", planar(S444, 12, false, false), rgb30(AR30), Model::Yuv, Call::C47(i412_to_ar30)),
        Op::new(560, "i412_to_ra30", planar(S444, 12, false, false), rgb30(RA30), Model::Yuv, Call::C47(i412_to_ra30)),
        Op::new(561, "i414_to_ar30", planar(S444, 14, false, false), rgb30(AR30), Model::Yuv, Call::C47(i414_to_ar30)),
        Op::new(562, "i414_to_ra30", planar(S444, 14, false, false), rgb30(RA30), Model::Yuv, Call::C47(i414_to_ra30)),
        Op::new(563, "rdp_abgr_to_yuv444", rgb(ABGR, 8, U8), rdp(), Model::Rdp, Call::C48(rdp_abgr_to_yuv444)),
        Op::new(564, "rdp_argb_to_yuv444", rgb(ARGB, 8, U8), rdp(), Model::Rdp, Call::C48(rdp_argb_to_yuv444)),
        Op::new(565, "rdp_bgr_to_yuv444", rgb(BGR, 8, U8), rdp(), Model::Rdp, Call::C48(rdp_bgr_to_yuv444)),
        Op::new(566, "rdp_bgra_to_yuv444", rgb(BGRA, 8, U8), rdp(), Model::Rdp, Call::C48(rdp_bgra_to_yuv444)),
        Op::new(567, "rdp_rgb_to_yuv444", rgb(RGB, 8, U8), rdp(), Model::Rdp, Call::C48(rdp_rgb_to_yuv444)),
        Op::new(568, "rdp_rgba_to_yuv444", rgb(RGBA, 8, U8), rdp(), Model::Rdp, Call::C48(rdp_rgba_to_yuv444)),
        Op::new(569, "rdp_yuv444_to_abgr", rdp(), rgb(ABGR, 8, U8), Model::Rdp, Call::C49(rdp_yuv444_to_abgr)),
        Op::new(570, "rdp_yuv444_to_argb", rdp(), rgb(ARGB, 8, U8), Model::Rdp, Call::C49(rdp_yuv444_to_argb)),
        Op::new(571, "rdp_yuv444_to_bgr", rdp(), rgb(BGR, 8, U8), Model::Rdp, Call::C49(rdp_yuv444_to_bgr)),
        Op::new(572, "rdp_yuv444_to_bgra", rdp(), rgb(BGRA, 8, U8), Model::Rdp, Call::C49(rdp_yuv444_to_bgra)),
        Op::new(573, "rdp_yuv444_to_rgb", rdp(), rgb(RGB, 8, U8), Model::Rdp, Call::C49(rdp_yuv444_to_rgb)),
        Op::new(574, "rdp_yuv444_to_rgba", rdp(), rgb(RGBA, 8, U8), Model::Rdp, Call::C49(rdp_yuv444_to_rgba)),
        Op::new(575, "i010_to_rgb_f16", planar(S420, 10, false, false), rgb(RGB, 16, F16), Model::Yuv, Call::C50(i010_to_rgb_f16)),
        Op::new(576, "i010_to_rgba_f16", planar(S420, 10, false, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C50(i010_to_rgba_f16)),
        Op::new(577, "i012_to_rgb_f16", planar(S420, 12, false, false), rgb(RGB, 16, F16), Model::Yuv, Call::C50(i012_to_rgb_f16)),
        Op::new(578, "i012_to_rgba_f16", planar(S420, 12, false, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C50(i012_to_rgba_f16)),
        Op::new(579, "i014_to_rgb_f16", planar(S420, 14, false, false), rgb(RGB, 16, F16), Model::Yuv, Call::C50(i014_to_rgb_f16)),
        Op::new(580, "i014_to_rgba_f16", planar(S420, 14, false, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C50(i014_to_rgba_f16)),
        Op::new(581, "i210_to_rgb_f16", planar(S422, 10, false, false), rgb(RGB, 16, F16), Model::Yuv, Call::C50(i210_to_rgb_f16)),
        Op::new(582, "i210_to_rgba_f16", planar(S422, 10, false, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C50(i210_to_rgba_f16)),
        Op::new(583, "i212_to_rgb_f16", planar(S422, 12, false, false), rgb(RGB, 16, F16), Model::Yuv, Call::C50(i212_to_rgb_f16)),
        Op::new(584, "i212_to_rgba_f16", planar(S422, 12, false, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C50(i212_to_rgba_f16)),
        Op::new(585, "i214_to_rgb_f16", planar(S422, 14, false, false), rgb(RGB, 16, F16), Model::Yuv, Call::C50(i214_to_rgb_f16)),
        Op::new(586, "i214_to_rgba_f16", planar(S422, 14, false, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C50(i214_to_rgba_f16)),
        Op::new(587, "i410_to_rgb_f16", planar(S444, 10, false, false), rgb(RGB, 16, F16), Model::Yuv, Call::C50(i410_to_rgb_f16)),
        Op::new(588, "i410_to_rgba_f16", planar(S444, 10, false, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C50(i410_to_rgba_f16)),
        Op::new(589, "i412_to_rgb_f16", planar(S444, 12, false, false), rgb(RGB, 16, F16), Model::Yuv, Call::C50(i412_to_rgb_f16)),
        Op::new(590, "i412_to_rgba_f16", planar(S444, 12, false, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C50(i412_to_rgba_f16)),
        Op::new(591, "i414_to_rgb_f16", planar(S444, 14, false, false), rgb(RGB, 16, F16), Model::Yuv, Call::C50(i414_to_rgb_f16)),
        Op::new(592, "i414_to_rgba_f16", planar(S444, 14, false, false), rgb(RGBA, 16, F16), Model::Yuv, Call::C50(i414_to_rgba_f16)),
        Op::new(593, "ayuv_to_rgb", packed444(AYUV), rgb(RGB, 8, U8), Model::Yuv, Call::C51(ayuv_to_rgb)),
        Op::new(594, "ayuv_to_rgba", packed444(AYUV), rgb(RGBA, 8, U8), Model::Yuv, Call::C51(ayuv_to_rgba)),
        Op::new(595, "vyua_to_rgb", packed444(VYUA), rgb(RGB, 8, U8), Model::Yuv, Call::C51(vyua_to_rgb)),
        Op::new(596, "vyua_to_rgba", packed444(VYUA), rgb(RGBA, 8, U8), Model::Yuv, Call::C51(vyua_to_rgba)),
    ]
}
