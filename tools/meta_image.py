prop("C13", "Binarisation follows the documented adaptive threshold",
     "Images prepared from grey levels (prepare and prepare_from_greyscale) have the size of the source, and a pixel is black exactly if it is darker than 95% of the mean of the two running averages (window: an eighth of the width, at least one pixel) taken over the rows in alternating scan direction; the source is only asked for pixels inside the image, and positions outside the image take the colour of the nearest pixel. Images without pixels are accepted.",
     ["inputs", "configurations"], "every image size and content",
     "Tests prepare a few photographs and only look at decoded text; no test compares a single thresholded pixel.",
     [P], [("adaptive threshold", "prepare.rs PreparedImage::prepare, prepare_from_greyscale"), ("clamped access", "prepare.rs get_pixel_at_point")],
     "Bounded: 17 sizes x 7 brightness patterns with one or two fully symbolic pixels each; every pixel compared.",
     ["PreparedImage::prepare", "PreparedImage::prepare_from_greyscale", "PreparedImage::get_pixel_at", "PreparedImage::get_pixel_at_point"])
prop("C14", "Images that are already black and white are taken over unchanged",
     "prepare_from_bitmap and without_preparation yield an image of the given size whose pixel at column x and row y is black exactly if the source says so, for every content and size including empty ones; prepare_from_bitmap asks once for every pixel and never for one outside; positions outside the image take the colour of the nearest pixel.",
     ["inputs"], "every size and content",
     "Tests never compare the prepared pixels with the source.",
     [P], [("copying", "prepare.rs prepare_from_bitmap, without_preparation"), ("clamped access", "prepare.rs get_pixel_at_point")],
     "Bounded: 12 sizes up to 420 pixels, every pixel symbolic.",
     ["PreparedImage::prepare_from_bitmap", "PreparedImage::without_preparation", "PreparedImage::get_pixel_at", "PreparedImage::get_pixel_at_point"])
prop("C15", "Detection is deterministic and leaves the picture's black and white intact",
     "detect_grids gives the same grids (number, sizes, bounds) for an image and a clone of it, and clones are independent of each other. Detection may recolour regions for its bookkeeping, but never changes which pixels are black and which white, nor the image size, however many regions there are; running it again leaves black and white intact too.",
     ["inputs", "histories"], "every picture, every number of regions, first and repeated detections",
     "Region colours are a finite resource that is recycled; no test has enough regions to recycle any, and none looks at the image after detection or detects twice.",
     [P, X], [("region cache and repainting", "prepare.rs get_region, repaint_and_apply, flood_fill"), ("colour recycling", "prepare.rs get_region (LRU cache)")],
     "Bounded: about 120 scenes (grids found, noise, symbols, up to 280 regions) with 2-5 symbolic pixels.",
     ["PreparedImage::detect_grids", "PreparedImage::get_pixel_at", "PreparedImage::clone"])
prop("C16", "Detection terminates without panic on every picture",
     "For every black-and-white picture of any size, including empty ones, ones with a single row or column, pattern fragments at the border, degenerate or distorted locator patterns, patterns too far apart or too large for any symbol, and any number of regions, detect_grids terminates without panicking, and every grid it returns can be decoded or rejected without panicking.",
     ["inputs", "configurations"], "every picture",
     "Seven distinct panics were reachable from valid input while all tests passed; they need scenes that photographs in the test suite do not contain.",
     [X, P, G, "src/identify/match_capstones.rs", "src/geometry.rs"], [("flood fill and corner search", "prepare.rs, detect.rs CapStone"), ("geometry", "geometry.rs Perspective, line_intersect"), ("grid location", "identify/grid.rs SkewedGridLocation")],
     "Bounded: about 230 scenes with up to six symbolic pixels next to pattern edges.",
     ["PreparedImage::detect_grids", "Grid::decode"])
prop("C17", "A symbol in a picture is found and read exactly, however it lies",
     "A picture with one symbol (any version, level, mask and content) on a white background with a quiet zone, at a sufficient number of pixels per module, axis-parallel or turned by any angle, mirrored, in moderate perspective or slanted, gives exactly one grid; it has the symbol's size and decodes to the symbol's payload and metadata, also if modules or pixels within the correction capacity are wrong. If the symbol is axis-parallel with whole pixels per module, every module of the grid equals the symbol's (for mirrored symbols: its transpose).",
     ["inputs", "configurations"], "every symbol x placement x damage within the capacity",
     "Tests hold some forty pictures; most versions never occur in a picture, larger versions and mirrored or slanted placements hardly ever.",
     [X, G, P, "src/identify/match_capstones.rs", "src/geometry.rs", L], [("locator patterns", "detect.rs capstones_from_image, CapStone"), ("grouping", "identify/match_capstones.rs, prepare.rs find_groupings"), ("alignment pattern, fitness, perspective", "identify/grid.rs SkewedGridLocation"), ("sampling", "identify/grid.rs RefGridImage::bit")],
     "Bounded: 44 axis-parallel and 70 other placements, two symbolic modules or four symbolic pixels.",
     ["PreparedImage::detect_grids", "Grid::decode_to", "BitGrid::bit"])
prop("C18", "Several symbols in one picture are each found exactly once",
     "A picture with several symbols of the same scale, side by side with their quiet zones, gives exactly one grid per symbol, each at the symbol's place, of its size and decoding to its payload and metadata; symbols do not lose each other's locator patterns. Many small marks that merely resemble a locator pattern in one line do not keep a symbol from being found and read.",
     ["inputs", "configurations"], "every arrangement of symbols and marks",
     "A few test pictures hold several codes, of the same version and at the same place in each.",
     ["src/identify/match_capstones.rs", X, G, P], [("assignment of locator patterns to symbols", "prepare.rs find_groupings, detect_grids"), ("colour recycling", "prepare.rs get_region")],
     "Bounded: 108 sheets of 2-6 symbols and 8 crowded pictures, two symbolic modules.",
     ["PreparedImage::detect_grids", "Grid::decode_to"])
prop("C19", "Reported bounds are the symbol's corners in order",
     "The bounds of a found grid are the four corners of the symbol in the picture (to within about two modules), starting at the corner between the other two locator patterns, the symbol's top left, then the top right, the bottom right and the bottom left one as seen in the decoded grid; for a turned symbol they turn with it, for a mirrored one they follow the transposed reading.",
     ["inputs", "configurations"], "every symbol x placement",
     "Tests compare the bounds of two pictures only.",
     [G, L], [("perspective mapping of the corners", "identify/grid.rs SkewedGridLocation, prepare.rs detect_grids")],
     "Bounded: 44 axis-parallel and about 60 other placements; tolerance 7/4 module + 1.5 pixels.",
     ["Grid::bounds"])
prop("C20", "Symbols in grey pictures are read whatever the contrast and under uneven light",
     "A symbol drawn in two sufficiently different grey levels, with slight noise and a brightness that falls off steadily over the picture by up to 60 percent, is found once and read exactly after prepare or prepare_from_greyscale.",
     ["inputs", "configurations"], "every pair of grey levels, light gradient and symbol",
     "The photographs in the tests have one exposure each.",
     [P, X], [("adaptive threshold", "prepare.rs prepare, prepare_from_greyscale")],
     "Bounded: versions 1-10, five level pairs, four gradients, two symbolic modules.",
     ["PreparedImage::prepare", "PreparedImage::prepare_from_greyscale", "PreparedImage::detect_grids", "Grid::decode_to"])
