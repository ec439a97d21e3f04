"""The properties (see props.py)."""
MC = "model_checking"
P = []
NA = []
T = "bounded symbolic execution of the elaborated FHDL into SMT (z3)"
SIM = ("Trusted: the FHDL-to-SMT translation (validated on every run by replaying random concretisations of the same "
       "symbolic run in Migen's simulator), z3, and Migen's simulator semantics as the meaning of the design.")


def prop(id, title, statement, over, qtext, why, files, mech, note, technique=T, level=MC, thorough=True, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note + " " + SIM, level=level, thorough=thorough, state=state))


# ------------------------------------------------------------------------------------------------ colour spaces

prop("C01", "RGB to YCbCr conversion is accurate for every pixel",
     "For every 8-bit R, G, B the converter outputs the Y, Cb and Cr of the documented XAPP930 matrix (8-bit, offsets "
     "16 and 128), clipped to 0..255. Y is within -2.36/+1.36, Cb within -1.61/+1.14 and Cr within -1.64/+1.28 LSB of "
     "the exact value.",
     ["inputs"], "all 2^24 pixels",
     "The test bench converts one small picture; corner colours, saturation and the intermediate widths are reached "
     "only by inputs it does not contain.",
     ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/common.py"],
     [("fixed-point datapath", "rgb2ycbcr.py RGB2YCbCrDatapath"), ("saturation", "csc/common.py saturate")],
     "All 2^24 pixels, solver verdict over integers; one pixel through an idle pipeline (C03 covers traffic).",
     technique="symbolic execution of the datapath in integer arithmetic, SMT (z3 LIA)")

prop("C02", "YCbCr to RGB conversion is accurate and inverts RGB to YCbCr",
     "For every 8-bit Y, Cb, Cr the converter outputs the inverse XAPP930 matrix clipped to 0..255, R within "
     "-2/+1.08, G within -4.12/+2.12 and B within -1.15/+0.23 LSB of the exact value. A pixel converted to YCbCr and "
     "back changes by at most 3 LSB in any component when its YCbCr was not clipped.",
     ["inputs"], "all 2^24 YCbCr values; all RGB pixels whose YCbCr is not clipped",
     "The test bench converts one small picture; saturation on both ends and worst-case rounding are not in it.",
     ["litevideo/csc/ycbcr2rgb.py", "litevideo/csc/rgb2ycbcr.py", "litevideo/csc/common.py"],
     [("fixed-point datapath", "ycbcr2rgb.py YCbCr2RGBDatapath"), ("saturation", "csc/common.py saturate")],
     "All inputs, solver verdict over integers; one pixel through an idle pipeline (C03 covers traffic).",
     technique="symbolic execution of the datapaths in integer arithmetic, SMT (z3 LIA)")

prop("C03", "Pixel and float pipelines lose, duplicate, reorder or corrupt nothing",
     "In the RGB/YCbCr, RGB/half-float, float-add and float-multiply stream actors every accepted token leaves exactly "
     "once, in order, with its packet flags, and with a result that depends on that token alone, whatever the pattern "
     "of input gaps and output stalls. When the output is stalled nothing is accepted or changed; when it is free a "
     "token is accepted every cycle.",
     ["schedules", "inputs"], "every valid/ready schedule of any length and every payload",
     "The test benches use one random-stall generator or none at all, and compare only the data, not the flags.",
     ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/ycbcr2rgb.py", "litevideo/csc/rgb2rgb16f.py",
      "litevideo/csc/rgb16f2rgb.py", "litevideo/float_arithmetic/floatadd.py",
      "litevideo/float_arithmetic/floatmult.py"],
     [("PipelinedActor and clock enable", "each actor's __init__"), ("per-stage registers", "each *Datapath")],
     "Three inductive lemmas from arbitrary register states: schedules of any length.",
     technique="inductive solver lemmas over the elaborated FHDL (z3 BV)")

prop("C04", "8-bit pixel and half-float pixel conversions are exact and inverse",
     "Every 8-bit component p becomes the half-float exactly equal to p/256, through the datapath and through the "
     "lookup table alike. Every half-float x in [0, 1] becomes the component floor(256 x), 1.0 becoming 255, so that "
     "a pixel survives the round trip.",
     ["inputs"], "all components; all half-floats from +0 to 1.0 including subnormals",
     "The test bench prints converted values of a picture within a tolerance and never visits subnormals, 0 and 1.0.",
     ["litevideo/csc/rgb2rgb16f.py", "litevideo/csc/rgb16f2rgb.py"],
     [("leading-one normalisation", "rgb2rgb16f.py RGB2RGB16fDatapath, PIX2PIXFLUT"),
      ("shift by exponent", "rgb16f2rgb.py RGB16f2RGBDatapath")],
     "All inputs; one pixel through an idle pipeline (C03 covers traffic).")

prop("C05", "4:4:4 to 4:2:2 resampling pairs pixels and averages their chroma",
     "For every packet of pixel pairs, output pixel k carries the luma of input pixel k and, for even k the mean Cb, "
     "for odd k the mean Cr, of the pair it belongs to, with the packet flags of pixel k. This holds whatever idle "
     "time precedes the packet and whatever output stalls occur.",
     ["schedules", "inputs"], "every stall schedule; every gap before a packet; all 8-bit samples",
     "The test bench sends one packet that happens to start on an even cycle without stalls.",
     ["litevideo/csc/ycbcr444to422.py"],
     [("parity and averaging datapath", "ycbcr444to422.py YCbCr444to422Datapath"),
      ("pipeline control", "ycbcr444to422.py YCbCr444to422")],
     "Stalls: lemmas for any schedule; data: any prior register state then 12/24 cycles of symbolic packets.")

prop("C06", "4:2:2 to 4:4:4 resampling reunites each pair under every schedule",
     "Every accepted pixel pair (Y0,Cb),(Y1,Cr) leaves exactly once and in order as (Y0,Cb,Cr),(Y1,Cb,Cr) with the "
     "packet flags of its pixels, whatever the input gaps and output stalls. Nothing incomplete leaves, every complete "
     "pair does, one pixel per cycle flows when nothing stalls, and a reset restarts the pairing.",
     ["schedules", "inputs"], "every valid/ready schedule within the bound, every payload and flag value",
     "The test bench checks a single picture's values; loss of sync needs particular gap/stall interleavings.",
     ["litevideo/csc/ycbcr422to444.py"],
     [("parity and chroma FIFOs", "ycbcr422to444.py YCbCr422to444")],
     "Bounded: 12 (quick) / 22 (thorough) cycle schedules from reset.")

prop("C07", "Half-float multiplication is exact up to truncation",
     "For every pair of non-negative finite half-floats whose exact product is below 65536, the multiplier returns the "
     "exact product rounded toward zero, with subnormal operands and results included.",
     ["inputs"], "all operand pairs with non-negative sign and in-range product",
     "The test multiplies a handful of random numbers in a narrow range and accepts a tolerance.",
     ["litevideo/float_arithmetic/floatmult.py", "litevideo/float_arithmetic/common.py"],
     [("multiplier datapath", "floatmult.py FloatMultDatapath"), ("leading-one detector", "common.py LeadOne")],
     "All operand pairs in the claim; negative operands, infinities and NaN are outside it.")

prop("C08", "Half-float addition is exact up to truncation",
     "For every pair of non-negative finite half-floats whose exact sum is below 65536, the adder returns the exact "
     "sum rounded toward zero, with zero and subnormal operands and results included.",
     ["inputs"], "all operand pairs with non-negative sign and in-range sum",
     "The test adds a handful of random numbers in a narrow range and accepts a tolerance.",
     ["litevideo/float_arithmetic/floatadd.py", "litevideo/float_arithmetic/common.py"],
     [("adder datapath", "floatadd.py FloatAddDatapath"), ("leading-one detector", "common.py LeadOne")],
     "All operand pairs in the claim; negative operands, infinities and NaN are outside it.")

# ------------------------------------------------------------------------------------------------ TMDS and reception

IND = "inductive solver lemmas over the elaborated FHDL (z3 BV), with a bounded run from reset"

prop("T01", "TMDS encoder follows DVI 1.0 and bounds the running disparity",
     "For every sequence of pixel values, control codes and data enable, the encoder emits exactly the 10-bit words of "
     "the DVI 1.0 encoding algorithm, one per cycle with constant latency. The running disparity stays bounded in "
     "every reachable state, so the line is DC balanced.",
     ["inputs", "histories"], "symbol sequences of any length",
     "There is no test of the encoder; the disparity state makes each word depend on the whole history.",
     ["litevideo/output/hdmi/encoder.py"],
     [("transition minimising and disparity", "encoder.py Encoder")],
     "Unbounded by solver-checked induction against a reference encoder; bounded lock step from reset besides.",
     technique=IND)

prop("T02", "TMDS decoder inverts the encoder",
     "For every running disparity, a pixel value or control code encoded by the transmitter is decoded by the receiver "
     "to the same value and to the same data enable. No other control code, value or enable is reported for it, and "
     "the latency is constant.",
     ["inputs", "histories"], "every symbol after every encoder history",
     "No test connects encoder and decoder, and the disparity history selects among encodings.",
     ["litevideo/input/decoding.py", "litevideo/output/hdmi/encoder.py"],
     [("word decoding", "input/decoding.py Decoding"), ("encoding", "output/hdmi/encoder.py Encoder")],
     "From an arbitrary encoder state: 6 / 10 consecutive symbols.")

prop("T03", "Character alignment finds the word boundary and only moves on evidence",
     "A serial channel cut at any of its ten bit offsets is realigned after one control period of at least 12 words, "
     "whatever came before, and every following word is output whole and in order, marked as synchronised, with the "
     "offset readable by software. Once aligned, the boundary only moves after control words at another offset were "
     "seen eight times in a row.",
     ["inputs", "histories"], "every offset, every prior state, every received word",
     "No test exercises the receiver; wrong offsets and near-miss control sequences need particular bit streams.",
     ["litevideo/input/charsync.py"],
     [("offset search and barrel shifter", "charsync.py CharSync")],
     "12 control words plus 6 / 14 words; stability over 11 / 16 cycles from any state.")

prop("T04", "Channel alignment removes any inter-channel skew",
     "Three channels carrying the same lines with constant skew of up to 7 words are output aligned, word for word and "
     "without loss, from the second control period at the latest, whatever was received before. The synchronised flag "
     "holds while they stay aligned.",
     ["inputs", "histories", "schedules"], "every skew and prior history",
     "No test exercises the receiver; each skew combination takes a different path through the synchroniser.",
     ["litevideo/input/chansync.py"],
     [("elastic buffers and control", "chansync.py _SyncBuffer, ChanSync")],
     "8 cycles of arbitrary history then 3 lines; skew symbolic with fixed lines, or lines symbolic with fixed skews.")

prop("T05", "Word error counter counts illegal words and only those",
     "A legal TMDS stream never counts an error. For any received words, the value software reads after an update is "
     "the number of illegal words in the last completed window, a run of 2^N consecutive words of which at most the "
     "word at the window change is left out.",
     ["inputs", "schedules"], "all received words; several windows; different clock rates",
     "No test exercises the counter; the window is 2^24 words long by default.",
     ["litevideo/input/wer.py"],
     [("transition count and window counter", "wer.py WER")],
     "Window scaled to 2^4 words, 3 windows, all words symbolic.")

prop("T06", "Sync polarity normalisation",
     "Whatever polarities the source uses, the horizontal and vertical sync outputs are active high: each is the "
     "received control bit, inverted if that bit was high on the first word of the current blanking period. Syncs are "
     "low during active video, and data and enable keep their alignment with them.",
     ["inputs", "histories"], "every input sequence from any prior state",
     "No test covers it, and a source with both polarities or a change of polarity is needed.",
     ["litevideo/input/analysis.py"],
     [("polarity registers", "analysis.py SyncPolarity")],
     "Any prior state, then 8 / 16 cycles of any input.")

prop("T07", "Resolution detection reports the true active size",
     "Software reads as horizontal resolution the length of the last completed run of active pixels, and as vertical "
     "resolution the number of active lines between the last two vertical syncs, for every line and frame shape.",
     ["inputs", "histories"], "every valid/de/vsync sequence",
     "No test covers it; off-by-one and reset errors depend on the order of enable, valid and sync edges.",
     ["litevideo/input/analysis.py"],
     [("line and pixel counters", "analysis.py ResolutionDetection")],
     "Bounded from reset (14 / 22 cycles, 11- and 2-bit counters) and unbounded by induction.", technique=IND)

prop("T08", "HDMI period decoding flags exactly the words of each period",
     "For any period built to HDMI 1.3 (control period, preamble, guard bands, video or data island of any length and "
     "content, after any history) the data enable, guard band and island flags are set over exactly the words they "
     "name. Every TERC4 word decodes to its 4-bit value, every control word to its code, and in DVI mode data enable follows channel 0.",
     ["inputs", "histories"], "every history, length and content within the bound",
     "No test covers the decoder; a data island can imitate guard bands and preambles.",
     ["litevideo/input/decoding.py"],
     [("period state machine", "decoding.py DecodeTERC4"), ("TERC4 table", "decoding.py DecodeTERC4Channel")],
     "4 words of history, preamble, guard band and 1..7 words of symbolic content.")

# ------------------------------------------------------------------------------------------------ video input

prop("I01", "A received picture leaves the receiver unchanged",
     "Once its channels are aligned, the HDMI/DVI receiver outputs every line of pixels sent to it exactly: the same "
     "colours in the same order on r, g and b while data enable is set, no pixel lost or repeated at either end of the "
     "line, and syncs with the source's timing (held through data islands). This holds for DVI and HDMI framing with "
     "data islands of any content, any bit offset, small channel skews and either sync polarity.",
     ["inputs"], "every line content; bit offsets; two skews; both polarities",
     "No test runs the receiver, and each bit offset and skew takes another path.",
     ["litevideo/input/__init__.py", "litevideo/input/charsync.py", "litevideo/input/chansync.py",
      "litevideo/input/decoding.py", "litevideo/input/analysis.py"],
     [("receiver wiring and delays", "input/__init__.py HDMIIn"), ("delay of data", "input/decoding.py TimingDelayChannel")],
     "Lines of 8 (16) pixels, every bit offset on every channel; vendor deserialisers and clocking replaced by word inputs (see I06, I07).")

prop("I02", "Frame extraction packs the pixels of each frame in order",
     "The words written for capture are exactly the active pixels of each frame in raster order, packed with the first "
     "pixel in the most significant slot. The first word after each vertical sync, and no other, is marked as start of "
     "frame; an incomplete last word is discarded. This holds in RGB and in 4:2:2 mode for every width of words of two pixels or more.",
     ["inputs", "histories"], "every enable/vsync/pixel sequence within the bound",
     "No test covers capture; partial words at frame ends and stale flags need particular line lengths.",
     ["litevideo/input/analysis.py"],
     [("packing and start-of-frame", "analysis.py FrameExtraction"),
      ("4:2:2 conversion", "csc/rgb2ycbcr.py, csc/ycbcr444to422.py")],
     "12 / 18 cycles (RGB), 16 / 24 cycles around one vsync (4:2:2), from reset.")

prop("I03", "Capture overflow is reported exactly",
     "The overflow flag software reads is set if captured words were lost because the memory side did not keep up "
     "since the last acknowledge, and clear if none were lost. Words that are not lost stay in order.",
     ["schedules"], "every data and memory stall pattern; clock ratios",
     "No test covers it; overflow needs a precise race between pixel clock, memory clock and acknowledge.",
     ["litevideo/input/analysis.py"],
     [("overflow detection", "analysis.py FrameExtraction")],
     "Two phases of 20 / 28 pixel clocks, FIFO of 4, clock ratios 1:1, 2:1, 1:2.")

prop("I04", "Frame capture DMA honours the slot protocol",
     "A frame is written only to the slot software armed, from its first word at the slot's address, consecutively and "
     "never beyond the frame size. A slot is reported done only after every word of its frame was written; a frame "
     "arriving with no armed slot is skipped whole; the next frame goes to the next armed slot; interrupts match "
     "finished slots.",
     ["schedules", "histories"], "every software, frame and memory-port behaviour within the bound",
     "No test covers the DMA; slot turnover races with frame starts and port stalls.",
     ["litevideo/input/dma.py"],
     [("slots and their status", "dma.py _Slot, _SlotArray"), ("transfer machine", "dma.py DMA")],
     "2 slots, frames of 1..3 words, 15 / 17 cycles from reset through the real CSR bank.")

prop("I06", "Deserialisers deliver every received bit once and in order",
     "On both FPGA families the 10-bit words a receiver lane delivers are the received bit stream, first bit in bit 0, cut "
     "every ten bits at a constant place: no bit is lost, repeated or moved, at any phase between the clocks involved. "
     "A lane whose pads are inverted delivers the complement.",
     ["inputs", "schedules"], "every bit stream; every phase of the two clocks",
     "No test instantiates the capture (the primitives cannot be simulated).",
     ["litevideo/input/datacapture.py"],
     [("8:10 gearbox", "datacapture.py S7DataCapture"), ("5:10 deserialisation", "datacapture.py S6DataCapture")],
     "24 / 60 words from reset; the vendor primitives' bit order is taken from the Xilinx user guides.")

prop("I07", "Input delays move exactly as software asks and phase status is truthful",
     "Every delay request of software moves, loads or calibrates the delay lines it names once and in the direction "
     "asked, nothing moves unasked, and busy flags and counts read back are those of the lines. The phase status says "
     "late (early) exactly when late minus early samples since the last phase reset first reached the upper (lower) "
     "limit of the counter.",
     ["inputs", "schedules", "histories"], "every received word, request and busy time; clock ratios",
     "No test instantiates the capture (the primitives cannot be simulated).",
     ["litevideo/input/datacapture.py"],
     [("delay control", "datacapture.py S6DataCapture, S7DataCapture"), ("phase detector", "datacapture.py S7PhaseDetector")],
     "Counter scaled to 3 bits (16 / 30 words) and a long run with 8 bits; 4 / 8 requests.")

prop("I08", "A received frame reaches the memory buffer software armed",
     "Each frame received on an HDMI or DVI link is written to the armed slot's memory as its active pixels in raster "
     "order, beginning with the first at the slot's address: colours on their documented places, packed as documented, "
     "in RGB or converted to 4:2:2. Nothing else of memory is written, and the slot is reported done afterwards.",
     ["inputs", "schedules", "histories"], "every pixel value and slot address of two small frames",
     "No test instantiates the receiver with its capture.",
     ["litevideo/input/__init__.py", "litevideo/input/analysis.py", "litevideo/input/dma.py"],
     [("capture path", "input/__init__.py HDMIIn"), ("frame extraction", "analysis.py FrameExtraction"), ("slots", "dma.py DMA")],
     "Two frames of 2 lines x 4 pixels, memory words of 64 bits; deserialisers replaced by word inputs (see I06).")

prop("I09", "Receivers of both FPGA families show the line sent to their pads",
     "The complete receiver of each supported FPGA family, fed with the serial bits of a video line on its three data "
     "lanes, delivers that line's colours, data enable and active-high syncs, for any constant bit and word offset "
     "between the lanes, for lanes with swapped pads, for DVI and HDMI links and in HDMI receivers set to DVI mode.",
     ["inputs", "schedules"], "every pixel value of a line, several offsets and clock phases",
     "No test instantiates a receiver with the clocking and capture of a real family.",
     ["litevideo/input/__init__.py", "litevideo/input/clocking.py", "litevideo/input/datacapture.py"],
     [("receiver", "input/__init__.py HDMIIn"), ("clocking", "clocking.py S6Clocking, S7Clocking"), ("capture", "datacapture.py")],
     "Lines of 8 / 16 pixels, six receiver configurations; the vendor's input serialisers are inputs (see I06).")

prop("I10", "The receiver's registers describe the link it receives, lane by lane",
     "What software reads from the assembled receiver is true: each lane's synchronised flag and bit offset, the channel "
     "flag, the active width and height of the frames received, and per lane the illegal words of that lane only, moved "
     "by an update of that lane only. Nothing is reported synchronised before it is.",
     ["inputs", "schedules"], "symbolic frames, disturbed lanes and software updates",
     "No test reads a register of the receiver; a lane's registers wired to another lane look right on a good link.",
     ["litevideo/input/__init__.py", "litevideo/input/charsync.py", "litevideo/input/chansync.py",
      "litevideo/input/wer.py", "litevideo/input/analysis.py"],
     [("wiring", "input/__init__.py HDMIIn"), ("status registers", "charsync.py, chansync.py, wer.py, analysis.py")],
     "Two small frames per receiver kind; error windows scaled to 2^4 words.")

# ------------------------------------------------------------------------------------------------ video output

prop("O01", "Timing generator produces exactly the programmed raster",
     "For all legal timing parameters, stall patterns and frame counts, the timing stream is the programmed raster: "
     "data enable over exactly the active pixels of active lines, hsync and vsync between their start and end, hscan "
     "by vscan beats per frame, and last on the final beat only. Parameters change at frame boundaries only.",
     ["inputs", "schedules"], "all 12-bit parameters, any stall pattern, any number of frames",
     "The test bench prints one frame and checks no position; sizes near the counter limits are never used.",
     ["litevideo/output/core.py"],
     [("counters", "core.py TimingGenerator")],
     "Unbounded by induction; bounded runs from reset besides.", technique=IND)

prop("O02", "Frame reader fetches each frame's words exactly once, in order",
     "For any base and length the reader asks the memory for exactly the words of the frame, each once, in ascending "
     "order from the base, and for nothing after the last. The words it hands on are those the memory returned, in "
     "order, with none lost whatever the memory and consumer stalls.",
     ["inputs", "schedules"], "every base, length and stall pattern",
     "The test bench uses a short frame in an ideal memory.",
     ["litevideo/output/core.py"],
     [("address generation", "core.py DMAReader")],
     "Addresses unbounded by induction (16, 32, 64-bit words); order bounded to 14 / 17 cycles.", technique=IND)

prop("O03", "Every displayed pixel comes from its place in the frame buffer",
     "When the video output core runs, every active beat of every frame carries the frame buffer word belonging to "
     "that pixel position, for any geometry, base address, memory latency and back-pressure, and blanking beats carry "
     "none (in raw mode every beat carries the next word). Frames follow each other without slipping.",
     ["inputs", "schedules", "histories"], "every geometry, stall and back-pressure pattern within the bound",
     "The test bench fails in this environment and checks no content.",
     ["litevideo/output/core.py"],
     [("join of timing and data", "core.py VideoOutCore"), ("parameters across clock domains", "core.py Initiator")],
     "Frames up to 4x4 beats, 25-70 cycles depending on stalls; see BOUNDS in the evidence.")

prop("O04", "Changing the output's buffer or parameters never tears a frame",
     "When software rewrites the base address while the output runs, every frame is still shown entirely from one "
     "buffer, and the new one is picked up. When the output is disabled and enabled again with new parameters, it "
     "starts with the first pixel of a frame with the new parameters and stays in step.",
     ["histories", "schedules"], "every moment of the change within the bound",
     "No test changes anything while running.",
     ["litevideo/output/core.py"],
     [("parameter hand-over", "core.py Initiator, DMAReader, TimingGenerator")],
     "Rewrite at any of 128 moments within 140 / 180 cycles; 62 cycles off; memory not stalling.")

prop("O05", "Pixels, data enable and syncs leave the output aligned in every mode",
     "In RGB, raw and 4:2:2 modes the driver receives each pixel together with the data enable and syncs of its own "
     "beat, with colours on their documented lanes and 4:2:2 data converted as documented. On VGA pads each colour "
     "shows its most significant bits, and black outside the active area.",
     ["inputs"], "all pixel values of two small frames in each mode",
     "No test runs the assembled output; a constant shift of the picture by a pixel is invisible to the others.",
     ["litevideo/output/__init__.py", "litevideo/output/driver.py", "litevideo/output/common.py"],
     [("timing delay", "output/__init__.py VideoOut, common.py TimingDelay"), ("VGA lanes", "driver.py VGAPHY")],
     "Two frames of 7x4 beats, all pixel values; vendor PHY replaced by a plain sink.")

prop("O06", "HDMI transmitter lanes carry the right words in the right bit order",
     "On both FPGA families blue with the syncs, green and red reach TMDS lanes 0, 1 and 2, each 10-bit word handed to "
     "the serialisers so that it is transmitted least significant bit first, and complemented on inverted pads. In raw "
     "mode the given 10-bit words are sent unmodified in the same way. The clock pad, differential, inverted or "
     "single-ended, is high in the first half of the pixel period.",
     ["inputs"], "all pixel, sync and enable values; inverted and normal pads; both families",
     "No test instantiates a PHY (the primitives cannot be simulated).",
     ["litevideo/output/hdmi/s7.py", "litevideo/output/hdmi/s6.py"],
     [("serialiser wiring", "s7.py S7HDMIOutEncoderSerializer, s6.py _S6HDMIOutEncoderSerializer"),
      ("lane assignment", "s7.py S7HDMIOutPHY, s6.py S6HDMIOutPHY")],
     "7 pixels after reset; the vendor primitives' bit order is taken from the Xilinx user guides.")

prop("O07", "The underflow counter counts exactly the clocks without a pixel",
     "While underflow counting is enabled, the value software reads after an update is the number of output clocks since "
     "enabling on which the video output had no valid beat, up to the few clocks of the crossing between the clock "
     "domains; between two updates the difference is exact. The value read moves only on an update, and disabling clears "
     "the count.",
     ["inputs", "schedules", "histories"], "every memory stall pattern and moment of enabling and reading within the bound; any state",
     "No test reads the counter.",
     ["litevideo/output/core.py"],
     [("underflow detection", "core.py VideoOutCore")],
     "8..14 / 12..20 cycles of stalls at three clock ratios; differences over 14 / 24 clocks from any state.")

prop("O08", "Test patterns show their picture under any back-pressure",
     "The colour bar, vertical line and dot generators present the pixels of their picture in raster order, each until it "
     "is accepted: eight bars of equal width in their documented colours, alternating columns, and a checkerboard, line "
     "after line, for any width (multiple of eight, of two for lines and dots).",
     ["inputs", "schedules", "histories"], "every width and back-pressure pattern",
     "No test instantiates the generators.",
     ["litevideo/output/pattern.py"],
     [("patterns", "pattern.py ColorBarsPattern, VerticalLinesPattern, DotsPattern")],
     "Unbounded by induction; 30 / 48 cycles from reset and a full 1920-pixel line besides; constant width.")

prop("O09", "A genlocked output follows the stream it is locked to",
     "With a genlock stream the output's timing is that stream's, beat for beat, and every active beat shows its word of the "
     "frame buffer. The reader fetches one frame when enabled and one after each vertical sync that follows a frame, "
     "each exactly the words from base plus the genlock delay to the end of the frame, once and in order.",
     ["inputs", "schedules", "histories"], "every base, length, delay, vertical sync and memory stall pattern within the bounds",
     "No test builds a genlocked output.",
     ["litevideo/output/core.py"],
     [("genlocked reader", "core.py DMAReader, state WAIT_SOF"), ("timing from the stream", "core.py TimingGenerator"),
      ("combination", "core.py VideoOutCore")],
     "Reader 13/17 cycles, core 22..32 / 26..40 cycles from reset; output enabled during a vertical blanking, the stream waits "
     "for the output.")

prop("P01", "Clock generators are reprogrammed exactly as software asks",
     "Every register access software makes reaches the clock primitive's programming port once, with its address, data "
     "and direction, and completes with the primitive's ready answer and read data, so that no access is lost, "
     "repeated or reported done early. Spartan-6 DCM commands are shifted out bit by bit, framed as asked.",
     ["schedules", "inputs"], "every access and every primitive answer time",
     "No test instantiates the clocking (the primitives cannot be simulated).",
     ["litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/input/clocking.py"],
     [("DRP access registers", "S6HDMIOutClocking, S7HDMIOutClocking, S6Clocking, S7Clocking"),
      ("DCM command shifter", "s6.py S6HDMIOutClocking")],
     "DRP unbounded by induction; DCM commands within 34 / 60 cycles.", technique=IND)

prop("P02", "Clocks have the documented ratios and their domains wait for the lock",
     "In receivers and transmitters of both families each clock domain runs from the clock generator at its documented "
     "multiple of the pixel clock, serialisers, delays and strobes get the clocks and strobe they need, resettable "
     "domains stay in reset until their clock is locked and leave it afterwards, and the lock status software reads is "
     "true.",
     ["inputs", "schedules", "configurations"], "all lock and reset sequences within the bound; every clock level",
     "No test builds the clocking, and simulators cannot run the vendor's clock generators.",
     ["litevideo/input/clocking.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py",
      "litevideo/output/driver.py", "litevideo/input/__init__.py"],
     [("receiver clocks", "input/clocking.py S6Clocking, S7Clocking"), ("transmitter clocks", "s6.py, s7.py *Clocking"),
      ("strobe wiring", "driver.py Driver, input/__init__.py HDMIIn")],
     "Frequencies from the primitives' parameters; 8 / 14 cycles of lock sequences.")

prop("I05", "The DDC slave answers exactly its own EDID reads",
     "For every byte sequence the source sends, the slave acknowledges its own address (0x50) and no other, takes the "
     "offset, and returns the EDID bytes from that offset on for as long as the source acknowledges. It never touches "
     "SDA otherwise, changes it only while SCL is low, restarts at any start condition, and releases SDA when hot plug "
     "is disabled. The default EDID is valid.",
     ["inputs", "histories"], "every address, offset and acknowledge; restart or disable at any bit",
     "No test covers the slave; a lock-up needs an abort at a particular bit.",
     ["litevideo/input/edid.py"],
     [("bit receiver and state machine", "edid.py EDID"), ("data driver", "edid.py EDID (data_drv)")],
     "Transactions of up to 5 bytes, at several sampling phases, through the real 64-cycle input filter.",
     technique="symbolic execution of the elaborated FHDL into SMT (z3), case split over bit positions")

# ------------------------------------------------------------------------------------------------ terminal

prop("X01", "Terminal video timing is the documented VGA raster for ever",
     "The terminal's sync outputs follow the documented raster in every line of every frame: 800 clocks per line of "
     "which the first 96 have hsync low, 521 lines per frame of which the first 2 have vsync low. The colour outputs "
     "are black outside the 640x480 picture, which starts 48 clocks after hsync and 29 lines after vsync.",
     ["histories"], "every clock, unbounded; all memory contents",
     "No test runs the terminal; a frame takes 400,000 clocks and an off-by-one at a wrap goes unnoticed.",
     ["litevideo/terminal/core.py"],
     [("pixel and line counters", "core.py Terminal")],
     "Unbounded by induction next to a reference raster; first lines from reset besides.", technique=IND)

prop("X02", "Every terminal pixel shows its character cell",
     "For all memory contents, pixel (x, y) of the picture is the foreground colour of character cell (x/8, y/16) if "
     "bit 7-x%8 of line y%16 of that character's font entry is set, and its background colour otherwise, from the "
     "16-colour VGA palette. A byte written through the bus shows in the next lines.",
     ["inputs"], "every memory content; lines and columns see level note",
     "No test runs the terminal; prefetch errors show only at particular columns and lines.",
     ["litevideo/terminal/core.py"],
     [("character, colour and font prefetch", "core.py Terminal"), ("palette", "core.py Terminal")],
     "Quick: 76 lines, 8 columns each; thorough: all 480 lines and 80 columns.",
     technique="symbolic execution of the elaborated FHDL into SMT (z3 arrays and bit-vectors)")

prop("X03", "The terminal memory answers the bus like a byte array",
     "Every Wishbone transfer is acknowledged once, within a few cycles, and none without a request. A read returns "
     "the byte last written to its address, or the initial one, and a write changes no other byte.",
     ["inputs", "schedules"], "every bus behaviour within the bound on arbitrary contents",
     "No test runs the terminal's bus.",
     ["litevideo/terminal/core.py"],
     [("acknowledge and write port", "core.py Terminal")],
     "16 / 28 cycles of any bus behaviour on a symbolic memory.",
     technique="symbolic execution of the elaborated FHDL into SMT (z3 arrays and bit-vectors)")
