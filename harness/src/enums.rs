//! The codes TIFF (and libtiff/GDAL) assign, independent of the library's own tables.
use async_tiff::tags::*;

macro_rules! table { ($name:ident, $ty:ty, $of:ident, $code:ident, $($v:ident = $n:expr),* $(,)?) => {
    pub const $name: &[($ty, u16)] = &[$((<$ty>::$v, $n)),*];
    #[allow(dead_code)]
    pub fn $of(n: u16) -> Option<$ty> { $name.iter().find(|x| x.1 == n).map(|x| x.0) }
    #[allow(dead_code)]
    pub fn $code(v: $ty) -> u16 { $name.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or_else(|| panic!("HARNESS: no code for {v:?}")) }
} }
table!(TAGS, Tag, known_tag, tag_code,
    NewSubfileType = 254, SubfileType = 255, ImageWidth = 256, ImageLength = 257, BitsPerSample = 258, Compression = 259,
    PhotometricInterpretation = 262, Threshholding = 263, CellWidth = 264, CellLength = 265, FillOrder = 266, ImageDescription = 270,
    Make = 271, Model = 272, StripOffsets = 273, Orientation = 274, SamplesPerPixel = 277, RowsPerStrip = 278, StripByteCounts = 279,
    MinSampleValue = 280, MaxSampleValue = 281, XResolution = 282, YResolution = 283, PlanarConfiguration = 284, FreeOffsets = 288,
    FreeByteCounts = 289, GrayResponseUnit = 290, GrayResponseCurve = 291, ResolutionUnit = 296, Software = 305, DateTime = 306,
    Artist = 315, HostComputer = 316, Predictor = 317, ColorMap = 320, TileWidth = 322, TileLength = 323, TileOffsets = 324,
    TileByteCounts = 325, ExtraSamples = 338, SampleFormat = 339, SMinSampleValue = 340, SMaxSampleValue = 341, JPEGTables = 347,
    Copyright = 33432, ModelPixelScale = 33550, ModelTiepoint = 33922, ModelTransformation = 34264, GeoKeyDirectory = 34735,
    GeoDoubleParams = 34736, GeoAsciiParams = 34737, GdalMetadata = 42112, GdalNodata = 42113, LercParameters = 50674);
table!(COMPRESSIONS, Compression, known_compression, compression_code,
    None = 1, Huffman = 2, Fax3 = 3, Fax4 = 4, LZW = 5, JPEG = 6, ModernJPEG = 7, Deflate = 8, PackBits = 32773, OldDeflate = 32946,
    JPEG2k = 34712, LERC = 34887, LZMA = 34925, ZSTD = 50000, WebP = 50001);
table!(PHOTOS, PhotometricInterpretation, photo_of, photo_code,
    WhiteIsZero = 0, BlackIsZero = 1, RGB = 2, RGBPalette = 3, TransparencyMask = 4, CMYK = 5, YCbCr = 6, CIELab = 8);
table!(PLANARS, PlanarConfiguration, planar_of, planar_code, Chunky = 1, Planar = 2);
table!(PREDICTORS, Predictor, predictor_of, predictor_code, None = 1, Horizontal = 2, FloatingPoint = 3);
table!(UNITS, ResolutionUnit, unit_of, unit_code, None = 1, Inch = 2, Centimeter = 3);
table!(FORMATS, SampleFormat, known_format, known_format_code, Uint = 1, Int = 2, Float = 3, Void = 4);
table!(EXTRAS, ExtraSamples, extra_of, extra_code, Unspecified = 0, AssociatedAlpha = 1, UnassociatedAlpha = 2);
table!(FIELD_TYPES, Type, type_of, type_code,
    BYTE = 1, ASCII = 2, SHORT = 3, LONG = 4, RATIONAL = 5, SBYTE = 6, UNDEFINED = 7, SSHORT = 8, SLONG = 9, SRATIONAL = 10,
    FLOAT = 11, DOUBLE = 12, IFD = 13, LONG8 = 16, SLONG8 = 17, IFD8 = 18);

pub fn tag_of(n: u16) -> Tag {
    known_tag(n).unwrap_or_else(|| Tag::from_u16_exhaustive(n))
}
pub fn compression_of(n: u16) -> Compression {
    known_compression(n).unwrap_or_else(|| Compression::from_u16_exhaustive(n))
}
/// Code of a sample format, unknown ones included.
pub fn format_code(f: SampleFormat) -> u16 {
    match f { SampleFormat::Unknown(n) => n, f => known_format_code(f) }
}
/// Code of a compression, unknown ones included.
pub fn any_compression_code(c: Compression) -> u16 {
    match c { Compression::Unknown(n) => n, c => compression_code(c) }
}
