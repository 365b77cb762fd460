"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), level_note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), level_note=level_note))


BASE_NOTE = ("Exhaustive within the bounds in DESIGN.md, on the elaborated code itself (translated to C++ with Simulator "
             "semantics; every run replays explored traces on the Migen Simulator). Trusts the Migen elaboration and the harness oracle. ")

prop("C01", "RGB to YCbCr conversion is exact for every pixel",
     "For every RGB pixel the converter outputs exactly the fixed-point evaluation of the documented BT.709-style equations, rounded towards minus infinity, offset and clamped to the pixel range, and within 3 LSB of the real-valued equations. "
     "No pixel wraps around, is lost, duplicated or influenced by its neighbours.",
     ["inputs", "configurations"], "all 2^24 8-bit RGB pixels in a continuously fed pipeline, and all pixels of two smaller width/coefficient configurations",
     "The test bench converts one photograph and writes another file without comparing: corner colours where clamping and truncation matter are never exercised.",
     ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/common.py"],
     [("eight-stage datapath with coefficient products, offset and saturate()", "litevideo/csc/rgb2ycbcr.py:RGB2YCbCrDatapath")], ["source.y/cb/cr"])
prop("C02", "YCbCr to RGB conversion is exact and saturates for every pixel",
     "For every YCbCr triple the converter outputs exactly the fixed-point evaluation of the documented inverse equations with each component saturated to the pixel range, and within 6 LSB of the real-valued equations. "
     "No value wraps around, is lost, duplicated or influenced by its neighbours.",
     ["inputs", "configurations"], "all 2^24 8-bit YCbCr triples in a continuously fed pipeline, and all triples of smaller configurations",
     "The bench converts one photograph's in-gamut triples; the out-of-gamut ones, where saturation matters, are never driven.",
     ["litevideo/csc/ycbcr2rgb.py", "litevideo/csc/common.py"],
     [("four-stage datapath with signed coefficients and saturate()", "litevideo/csc/ycbcr2rgb.py:YCbCr2RGBDatapath")], ["source.r/g/b"])
prop("C03", "4:4:4 to 4:2:2 downsampling averages each pixel pair and loses nothing",
     "Every pixel pair of a packet leaves as two pixels with unchanged luma, the first carrying the pair's mean Cb and the second its mean Cr, whatever the consumer's stalls and whatever precedes the packet. "
     "Order and first/last marks are preserved and no pixel is lost or duplicated.",
     ["inputs", "schedules", "histories"], "every interleaving of producer and consumer decisions over packet histories to closure, and all 2^16 pairs of chroma values",
     "The bench streams one image without stalls, odd-length packets or restarts and compares nothing.",
     ["litevideo/csc/ycbcr444to422.py"],
     [("parity toggle restarted on first, averaging registers gated by pipe_ce", "litevideo/csc/ycbcr444to422.py:YCbCr444to422")], ["source"])
prop("C04", "4:2:2 to 4:4:4 upsampling gives both pixels of a pair the pair's chroma",
     "Every pixel pair leaves as two pixels with unchanged luma and the Cb/Cr samples carried by that pair, whatever the producer's and consumer's stalls, also after a frame restart. "
     "Order and first/last marks are preserved and no pixel is lost or duplicated.",
     ["inputs", "schedules", "histories"], "every interleaving of producer, consumer and restart decisions to closure, and all 2^16 pairs of chroma samples",
     "The bench streams one image with fixed randomisation and compares nothing.",
     ["litevideo/csc/ycbcr422to444.py"],
     [("cb/cr/y FIFOs and parity FSM", "litevideo/csc/ycbcr422to444.py:YCbCr422to444")], ["source"])
prop("C05", "8-bit pixels convert to half floats and back exactly",
     "Every 8-bit component p becomes the half-precision float closest below p/256 (exactly p/256), through the arithmetic converter and through the lookup table alike, and converting back returns p for every p. "
     "Non-negative half floats of 1.0 and more give the largest pixel value, those below truncate.",
     ["inputs"], "all 256 components on each channel, all 65536 half floats",
     "The benches convert the pixels of one image and compare nothing.",
     ["litevideo/csc/rgb2rgb16f.py", "litevideo/csc/rgb16f2rgb.py"],
     [("leading-one detection and shifts", "litevideo/csc/rgb2rgb16f.py:RGB2RGB16fDatapath"), ("exponent shift", "litevideo/csc/rgb16f2rgb.py:RGB16f2RGBDatapath")], ["source"])
prop("C06", "Pipelined converters obey the valid/ready contract under every schedule",
     "For every pattern of producer pauses and consumer stalls, the colour converters and float units deliver each accepted item exactly once, in order, with its own first/last marks and its own result. "
     "An offered item is held unchanged until taken, and neither side is ever stuck.",
     ["schedules"], "every schedule of producer and consumer decisions, to closure of the state space, for six units",
     "The benches use a few random stall patterns and look at the data file only.",
     ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/ycbcr2rgb.py", "litevideo/csc/rgb2rgb16f.py", "litevideo/csc/rgb16f2rgb.py", "litevideo/float_arithmetic/floatadd.py", "litevideo/float_arithmetic/floatmult.py"],
     [("PipelinedActor pipe_ce wired to the datapath ce and latency", "each unit's top class")], ["sink.ready", "source"])
prop("F01", "Half-float addition is exact up to truncation for every operand pair",
     "For every pair of finite half floats the adder outputs their exact sum rounded towards zero to half precision, including zero and subnormal operands and results, wherever the sum is finite. "
     "Results never depend on neighbouring items in the pipeline.",
     ["inputs"], "all 31744^2 pairs of non-negative finite half floats, and every signed first operand with every 8th (thorough: every) signed second operand",
     "The bench adds two float lists of a handful of values and compares nothing.",
     ["litevideo/float_arithmetic/floatadd.py"],
     [("exponent alignment, mantissa add and normalisation", "litevideo/float_arithmetic/floatadd.py:FloatAddDatapath")], ["source.out"],
     level_note="Known finding: sign bits are ignored (recorded, every other deviation is reported).")
prop("F02", "Half-float multiplication is exact up to truncation for every operand pair",
     "For every pair of finite half floats the multiplier outputs their exact product rounded towards zero to half precision, with the sign of the product, including zero, underflowing and subnormal results, wherever the product is finite. "
     "Results never depend on neighbouring items in the pipeline.",
     ["inputs"], "all 31744^2 pairs of non-negative finite half floats, and every signed first operand with every 8th (thorough: every) signed second operand",
     "The bench multiplies two lists of a handful of values and compares nothing.",
     ["litevideo/float_arithmetic/floatmult.py"],
     [("mantissa product, leading-one normalisation", "litevideo/float_arithmetic/floatmult.py:FloatMultDatapath")], ["source.out"])
prop("L01", "TMDS encoder output is the DVI encoding for every data history",
     "For every sequence of data words and control periods, each 10-bit character sent is exactly the one the DVI 1.0 algorithm prescribes given the running disparity of everything sent since the last control period. "
     "Control periods send the control character of the two control bits and reset the disparity, at a fixed latency.",
     ["histories", "inputs"], "every history over a word alphabet to closure of encoder state, and all 2^24 three-word sequences",
     "No test drives the encoder; its running disparity makes each output depend on an unbounded history.",
     ["litevideo/output/hdmi/encoder.py"],
     [("transition-minimising stage and disparity counter", "litevideo/output/hdmi/encoder.py:Encoder")], ["Encoder.out"])
prop("L02", "Encoded data and control characters decode back to what was sent",
     "For every history of data words and control periods, decoding what the TMDS encoder sent returns the same data word, control bits and data enable, in order and at one fixed latency. "
     "Each of the four control characters decodes to its own control bits with data enable low, and the raw character is carried along unchanged.",
     ["histories", "inputs"], "every three-word sequence through encoder and decoder, every history of a word alphabet to closure, and all pairs of 10-bit characters into the decoder",
     "Nothing tests the decoder, and nothing connects it with the encoder.",
     ["litevideo/input/decoding.py", "litevideo/output/hdmi/encoder.py"],
     [("character decode", "litevideo/input/decoding.py:Decoding"), ("encode", "litevideo/output/hdmi/encoder.py:Encoder")], ["Decoding.output", "Decoding.valid_o"])
prop("L03", "Character synchronisation finds and keeps every word boundary",
     "Whatever the bit position at which a serial channel's characters begin, after the required number of control characters seen at the same position the aligned output carries the transmitted characters one by one and the channel reports synchronised. "
     "When the position changes the channel re-acquires the new one, and it never reports synchronised for a stream without repeated control characters at one position.",
     ["inputs", "histories"], "all ten bit positions, payload characters and control characters, position changes, and every short history of raw words over an alphabet",
     "No test drives the synchroniser; the failing positions and histories are specific to single bit offsets.",
     ["litevideo/input/charsync.py"],
     [("control character search over 19 bits and position counter", "litevideo/input/charsync.py:CharSync")], ["CharSync.data", "CharSync.synced", "char_synced CSR"])
prop("L04", "Channel alignment removes every inter-channel skew within its depth",
     "For any skews between the channels smaller than the buffer depth, once the channels report synchronised, all outputs of a cycle belong to the same transmitted pixel and no pixel is lost, repeated or reordered. "
     "After the skew changes or the input becomes invalid alignment is recovered within two blanking intervals.",
     ["inputs", "histories"], "all skew combinations within the depth with several line structures and start phases, a skew change and an interruption each, and the complete state space of a two-channel depth-4 instance",
     "No test drives the aligner; each skew combination exercises different buffer pointers.",
     ["litevideo/input/chansync.py"],
     [("per-channel sync buffers and control-period comparison", "litevideo/input/chansync.py:ChanSync")], ["data_out0..2", "chan_synced"])
prop("L05", "The word error counter reports the invalid words of each period",
     "At the end of each measurement period the counter holds the number of received characters that are neither control characters nor within the transition bound of TMDS data characters, and on request that number becomes readable by software. "
     "A read request never disturbs the counting.",
     ["inputs", "histories"], "all 1024 characters, and every error history over complete periods of a short-period instance to closure",
     "No test drives the counter.",
     ["litevideo/input/wer.py"],
     [("transition count, period counter and CSR transfer", "litevideo/input/wer.py:WER")], ["value CSR"])
prop("L06", "HDMI period decoding raises data enable exactly on the video pixels",
     "For every sequence of control, preamble, guard band, video and data island periods, data enable is high exactly for the pixels following a video guard band until the next control character, and data islands never produce pixels. "
    "The TERC4 flag covers exactly the characters of data islands and their guard bands, the encrypted-data flag exactly the packet characters between the guard bands, and the encrypted-video flag exactly the pixels. "
     "Guard bands, control characters and TERC4 symbols are classified per the HDMI specification for each channel.",
     ["histories", "inputs"], "all 1024 characters on each channel and every sequence of periods over an alphabet of character triples to closure",
     "No test drives the decoder.",
     ["litevideo/input/decoding.py"],
     [("period state machine", "litevideo/input/decoding.py:DecodeTERC4"), ("per-channel classification", "litevideo/input/decoding.py:DecodeTERC4Channel")], ["DecodeTERC4.de_o", "DecodeTERC4.encoding_terc4", "DecodeTERC4.encrypting_data", "DecodeTERC4.encrypting_video"])
prop("L07", "Serial capture delivers every sampled bit in order",
     "For every phase between the serial, double-rate and pixel clocks, the ten bits presented by the deserializer during a pixel appear once and in order in the captured word, on both device families. "
     "Delay adjustment commands and phase detector readings act on the addressed delay line only, in the requested direction, once per command, and the tap registers count the steps made.",
     ["inputs", "schedules", "histories"], "all captured words and clock phases of both families, and every sequence of control commands to closure",
     "No test elaborates the capture logic.",
     ["litevideo/input/datacapture.py"],
     [("gearbox", "litevideo/input/datacapture.py:S6DataCapture, S7DataCapture"), ("delay command FSM and phase detector", "litevideo/input/datacapture.py")], ["d", "delay and phase CSRs"])
prop("L08", "Serializers send the encoded pixels bit by bit in order on the right lane",
     "For every pixel sequence, each HDMI data lane transmits first bit first exactly the TMDS encoding of its colour component (blue with the syncs on lane 0), or in raw mode the given character, inverted when the pads are declared inverted. "
     "The clock lane carries one period per pixel.",
     ["inputs", "histories", "configurations"], "all component values, raw characters and sync combinations through both families' drivers, normal and inverted pads",
     "No test elaborates the drivers.",
     ["litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/output/driver.py", "litevideo/output/hdmi/encoder.py"],
     [("encoder and serializer wiring", "litevideo/output/hdmi/s7.py:S7HDMIOutEncoderSerializer"), ("2x gearbox", "litevideo/output/hdmi/s6.py")], ["serializer data inputs"])
prop("V01", "Sync polarity is normalised and stays aligned with the pixels",
     "Whatever polarity the source uses for its sync signals, after the first active line both are reported active-high, and data enable, syncs, validity and colours of one output cycle all belong to the same input cycle; the raw characters pass through with them. ",
     ["histories", "configurations"], "every sequence of data, sync and blanking cycles for the four polarities to closure, in DVI and HDMI mode",
     "No test drives the unit.",
     ["litevideo/input/analysis.py"],
     [("polarity sampling at the end of each line", "litevideo/input/analysis.py:SyncPolarity")], ["hsync/vsync/de/r/g/b/valid_o"])
prop("V02", "The measured resolution equals the source's",
     "After two complete frames of any format up to 2047 by 2047, the registers read exactly the number of active pixels per line and active lines per frame, and follow a format change within two frames. "
     "Without a valid input they read zero.",
     ["inputs", "histories"], "a grid of frame formats, blanking shapes and format changes, including standard and limit sizes",
     "No test drives the unit.",
     ["litevideo/input/analysis.py"],
     [("counters latched at line and frame ends", "litevideo/input/analysis.py:ResolutionDetection")], ["hres/vres CSRs"])
prop("V03", "Frame extraction packs exactly the active pixels of each frame in order",
     "Between two vertical sync edges, the words handed to the memory side contain exactly the active pixels in scan order, packed first pixel lowest, with the start-of-frame mark on the first word of a frame and on no other. "
     "A word whose pixels were overrun is reported through the overflow register, and nothing of an incomplete word leaks into the next frame. After the pixel clock was lost, only words received since are handed over.",
     ["histories", "schedules", "inputs"], "frame sizes and blanking shapes in all four pack modes, every interleaving of two clock domains and back-pressure of a small frame, overflow histories, and a loss of the pixel clock in any cycle",
     "No test drives the unit; the failures depend on frame widths and on the relation of two clocks.",
     ["litevideo/input/analysis.py"],
     [("packer, start-of-frame mark and clock crossing", "litevideo/input/analysis.py:FrameExtraction")], ["FrameExtraction.frame stream", "overflow CSR"],
     level_note=" Words hold at least two pixels and blanking is at least 16 cycles.")
prop("V04", "The frame writer fills loaded slots only, completely, one frame each",
     "Each memory write goes to the next address of a slot software has loaded, starting at its base with the first word of a frame and covering exactly the frame size; then the slot reads completed and raises its event. "
     "Frames arriving with no loaded slot are dropped whole, and a loaded slot is never skipped, written twice or written outside its range. "
     "A slot that software withdraws, at any moment, is not written any further and neither it nor another slot reads completed for it.",
     ["histories", "schedules"], "every sequence of frame words, software slot loads, withdrawals, acknowledgements and memory back-pressure, for one to three slots and both memory widths",
     "No test drives the unit; the failures need a slot to change state in one particular cycle of the frame.",
     ["litevideo/input/dma.py"],
     [("slot state", "litevideo/input/dma.py:_Slot, _SlotArray"), ("frame writer FSM", "litevideo/input/dma.py:DMA")], ["memory port writes", "slot status, address and event registers"],
     level_note=" Within three cycles of a slot being loaded a frame may or may not take it; frames deliver at least the programmed size.")
prop("V05", "EDID memory answers every I2C read as the protocol requires",
     "For every sequence of START, STOP, address, offset and read clocks, the device acknowledges exactly its own address while enabled, returns the memory bytes, as software last wrote them, from the last set offset on, wraps at the end, and releases SDA at all other times. "
     "A byte written after the offset changes neither the memory nor what is read next. It never changes SDA while SCL is high, and disabling it at any moment releases the bus.",
     ["histories", "inputs"], "every sequence of master actions at bit level over an alphabet of bytes, aborts and host plug events to closure; every address byte, every offset and whole memory reads",
     "No test drives the unit.",
     ["litevideo/input/edid.py"],
     [("I2C slave FSM", "litevideo/input/edid.py:EDID")], ["SDA drive", "hpd CSRs and pads"])
prop("V06", "The HDMI receiver turns three skewed serial lanes into the source's pixels",
     "For every bit position and skew of the three lanes, every device family and interface mode, once the receiver has settled its pixel output is exactly the sequence of lines the source sent: component values, data enable and syncs together, and the resolution registers read the source's. "
     "After a lane slips, loses its signal or the clock loses lock, the receiver settles again on the right pixels, and never reports valid pixels assembled from unsynchronised lanes; without valid input the resolution registers read zero.",
     ["inputs", "histories", "configurations"], "lane offsets and skews, both families, DVI and HDMI, inverted pads, lane slips, mutes and clock losses, with and without a memory port",
     "No test elaborates the receiver; misalignment shows for single lane offsets only.",
     ["litevideo/input/__init__.py", "litevideo/input/charsync.py", "litevideo/input/chansync.py", "litevideo/input/decoding.py", "litevideo/input/analysis.py"],
     [("pipeline wiring of capture, synchronisers, decoders and analysis", "litevideo/input/__init__.py:HDMIIn")], ["HDMIIn.syncpol outputs", "resolution CSRs", "memory port"],
     level_note=" Judged from the third frame on (fourth after a mute), skews up to 69 bits.")
prop("O01", "Each frame has exactly the programmed timing under every schedule",
     "For every set of timing parameters and every pattern of output stalls, each frame consists of (hscan+1) x (vscan+1) positions in which data enable, hsync and vsync are high exactly in the programmed column and line ranges. "
     "Frames follow each other without gap, each consumes one parameter set at its last position and never mixes two; nothing is output without parameters, and after they are withdrawn in mid-frame the next frame starts from its first position.",
     ["schedules", "inputs", "histories"], "every stall, withdrawal and parameter change schedule over pairs of small formats to closure, and whole frames of real and limit formats",
     "The bench checks the pixel data of one format, not the syncs, and never changes parameters.",
     ["litevideo/output/core.py"],
     [("horizontal and vertical counters", "litevideo/output/core.py:TimingGenerator")], ["TimingGenerator.source", "TimingGenerator.sink.ready"])
prop("O02", "Each displayed frame is exactly one frame buffer's pixels in order",
     "Whatever the memory latency and output stalls, every active position (in raw mode every position) shows the frame buffer word of its own index; a word that is late delays the output, and none is lost, repeated or taken from outside the buffer. "
     "This holds again after disabling and enabling at any moment, after a change of the base, and in genlock mode two frames after any late word; the underflow counter counts the cycles without output.",
     ["schedules", "histories", "configurations"], "every schedule of memory commands, data returns, output stalls, disables and base changes over a small frame to closure, genlock histories with late memory, the same behind a width converter of the memory controller, and long runs over clock ratios",
     "The bench displays one frame with one fixed memory latency.",
     ["litevideo/output/core.py"],
     [("parameter queue", "litevideo/output/core.py:Initiator"), ("frame reader", "litevideo/output/core.py:DMAReader"), ("pairing of timing and data", "litevideo/output/core.py:VideoOutCore")], ["VideoOutCore.source", "dram_port.cmd", "underflow_counter CSR"],
     level_note=" Known finding: the frame after a base change starts with words of the previous buffer (recorded, every other mixture is reported).")
prop("O03", "The pads show the frame buffer's pixels, complete path, every mode and family",
     "From the CSRs and the memory port to the serializer lanes or VGA pins: within every frame each position carries the data enable and syncs of the programmed timing, and the colours of exactly the frame buffer word of its index, converted as the mode says. "
     "Raw mode sends the 30 bits of each word unchanged; blanking is control characters on the lanes and black on the VGA pins, whose clock pin carries the pixel clock. "
     "The frames queued when the output is disabled end whole, then everything is blank, and another setting given before enabling again is shown as exactly, whether or not the pixel clock was set anew in between.",
     ["inputs", "histories", "configurations"], "both device families, three pixel modes, HDMI and two VGA widths, over pairs of frame formats with the output disabled in between, memory latencies and pauses, clock ratios and pixel values",
     "The bench drives the core alone; no test elaborates the output with a driver, so a wrong delay or wire between the parts shows nowhere.",
     ["litevideo/output/__init__.py", "litevideo/output/common.py", "litevideo/output/driver.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/output/core.py"],
     [("mode specific data path and timing delay", "litevideo/output/__init__.py:VideoOut, TimingDelay"), ("pad drivers", "litevideo/output/driver.py")], ["serializer inputs", "VGA pads", "memory port"],
     level_note=" Judged from the second frame on.")
prop("O04", "Test patterns deliver each line's pixels in order under any stall",
     "Colour bars give eight bars of one eighth line each (rounded down, the last one takes the rest) in their fixed order, starting over with each line; vertical lines alternate every pixel; dots alternate along and between lines. "
     "A pixel offered to a consumer that does not take it stays until taken, and none is skipped or repeated.",
     ["schedules", "inputs"], "every stall schedule over several line lengths to closure",
     "No test drives the patterns.",
     ["litevideo/output/pattern.py"],
     [("bar and parity counters", "litevideo/output/pattern.py:ColorBarsPattern, VerticalLinesPattern, DotsPattern")], ["source stream"],
     level_note=" Lines and dots are for lines of an even number of pixels; the timing input stays valid once valid.")
prop("T01", "The terminal's picture is exactly its memory, with the documented timing",
     "Every frame has 521 lines of 800 clocks with the documented sync pulses, porches and 640x480 picture, and each of the 80x30 cells shows the font bitmap of its character in its two palette colours; everything else is black. "
     "A write changes nothing but what it addresses, and from 128 clocks later on every cell shows it.",
     ["inputs", "histories", "schedules"], "every character with every colour, default and custom fonts and screens, writes and reads at all beam positions under five clock ratios, whole frames",
     "No test drives the terminal.",
     ["litevideo/terminal/core.py"],
     [("pixel pipeline and counters", "litevideo/terminal/core.py:Terminal")], ["red/green/blue/hsync/vsync"])
prop("T02", "The terminal's memory answers Wishbone accesses like a memory",
     "Each access is acknowledged exactly once within a few cycles and nothing is acknowledged or written without a request; a read returns the last value written to its address, or after reset the byte of the given screen and font files. "
     "This holds for every address, access order and gap, and any phase of the display clock.",
     ["histories", "inputs", "configurations"], "every access sequence over an alphabet of addresses and values to closure, and walks over all 8896 addresses for three initial contents",
     "No test drives the terminal.",
     ["litevideo/terminal/core.py"],
     [("Wishbone slave", "litevideo/terminal/core.py:Terminal"), ("initial content", "litevideo/terminal/core.py:read_ram_init_file")], ["Wishbone bus"],
     level_note=" The master holds a request until it is acknowledged and stays inside the map.")
prop("K01", "Clock reconfiguration accesses reach the primitive once and report completion",
     "Each read or write of the reconfiguration registers makes exactly one access with the programmed address and data, clears the ready flag, and the flag is set by the primitive's answer to it and stays. "
     "Reset register, lock status and the resets derived from lock follow, at every time, in all six clock generators, and the generated clocks run at their fixed ratios to the pixel clock.",
     ["histories", "schedules", "configurations"], "every sequence of register accesses, answers and lock changes to closure, for input and output clocking of both families and the split clock",
     "No test elaborates the clocking.",
     ["litevideo/input/clocking.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py"],
     [("reconfiguration ports", "litevideo/input/clocking.py:S6Clocking, S7Clocking"), ("output clocking", "litevideo/output/hdmi/s6.py:S6HDMIOutClocking, litevideo/output/hdmi/s7.py:S7HDMIOutClocking")],
     ["ports of PLL_ADV, MMCME2_ADV, PLLE2_ADV", "CSRs"])
prop("K02", "Pixel clock commands are sent bit exact with the required framing",
     "Every 10-bit command written leaves least significant bit first, one bit per clock, with PROGEN high for exactly these bits; GO is one clock of PROGEN with data low. "
     "The busy flag covers the bits and at least two more clocks, and the status register shows done and both locks.",
     ["inputs", "histories"], "all 1024 commands, and every history of register writes and primitive answers to closure",
     "No test elaborates the clocking.",
     ["litevideo/output/hdmi/s6.py"],
     [("command shift register and busy counter", "litevideo/output/hdmi/s6.py:S6HDMIOutClocking")], ["DCM_CLKGEN PROGDATA/PROGEN", "status CSR"],
     level_note=" Software sends only when not busy.")
prop("E01", "A picture sent by VideoOut arrives in HDMIIn's frame buffers word for word",
     "From frame buffer to frame buffer over an HDMI link: whatever the bit offsets of the three lanes, the phases of the clocks, the frame format and the memories' timing, each slot software loads is filled with exactly the pixels of one frame sent, in order, every word once. "
     "Nothing else is written, no overflow is reported and the resolution registers read the size sent; after the output was off and another picture follows over other lane offsets, the same holds again, whether or not either side's clock lost its lock in between.",
     ["inputs", "histories", "configurations"], "both device families, both pixel formats at either end, all 4900 pairs of lane offsets with formats, clock phases, memory stalls, losses of either clock, and a change of picture and offsets in each execution",
     "Nothing connects the transmitter with the receiver; each is tested, if at all, unit by unit.",
     ["litevideo/output/__init__.py", "litevideo/output/core.py", "litevideo/output/driver.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/output/hdmi/encoder.py",
      "litevideo/input/__init__.py", "litevideo/input/datacapture.py", "litevideo/input/analysis.py", "litevideo/input/dma.py"],
     [("complete transmitter", "litevideo/output/__init__.py:VideoOut"), ("complete receiver", "litevideo/input/__init__.py:HDMIIn")], ["memory ports", "lanes", "CSRs"],
     level_note=" Judged from the fifth frame on, skews up to 69 bits, lines with at least 18 pixels and 21 blanking clocks.")
