// Access to private items of the parent module; decides nothing.
use super::*;
impl VideoFrameMetadata {
    pub fn vx_of(height: u32) -> Self {
        VideoFrameMetadata { width: 640, height, rotation: VideoRotation::None }
    }
}
