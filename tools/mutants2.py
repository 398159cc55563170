# --- web worker
M("w01-resp-array", "W01", (WW, "this.sendResponse(id, [weightsPtr, array], [array.buffer]);", "this.sendResponse(id, [weightsPtr, array], [array]);"))
M("w02-size", "W01", (WW, "wasmInst.exports.free_image_buffer(width * height * 3 + 1, bufPtr);", "wasmInst.exports.free_image_buffer(width * height * 3, bufPtr);"))
M("w03-g", "W01", (WW, "                outputArray[i * 4 + 1] = imageBuf[i * 3 + 1];", "                outputArray[i * 4 + 1] = imageBuf[i * 3 + (i & 1)];")) 
M("w04-stalebuf", "W01", (WW, "                let paletteSizeBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, bufPtr + width * height * 3, 1);\n                paletteSize = paletteSizeBuf[0];", "                paletteSize = buf[width * height * 3];"))
M("w05-free-late", "W01", (WW, "            wasmInst.exports.free_computed_palette(palettePtr, paletteSize);\n", ""))
M("w06-free-early", "W01", (WW, "            let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteSize);\n            let palette = [];", "            let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteSize);\n            wasmInst.exports.free_computed_palette(palettePtr, paletteSize);\n            palettePtr = 0;\n            let palette = [];"))
M("w07-noanswer-free", "W01 W02", (WW, "            wasmInst.exports.free_decomposed_image(ptr);\n            this.sendResponse(id, \"\");", "            wasmInst.exports.free_decomposed_image(ptr);"))
M("w08-catch", "W01", (WW, "            this.sendError(id, String(e));", "            if (!(e instanceof TypeError)) this.sendError(id, String(e));"))
M("w09-double-answer", "W01", (WW, "                this.sendError(id, \"Invalid palette channel\");\n            }", "                this.sendError(id, \"Invalid palette channel\");\n            }\n            if (n < 0) this.sendResponse(id, \"\");"))
M("w10-alpha", "W01", (WW, "                    outputArray[i * 4 + 2] = imageBuf[i];\n                    // 100% alpha\n                    outputArray[i * 4 + 3] = 255;", "                    outputArray[i * 4 + 2] = imageBuf[i];\n                    outputArray[i * 4 + 3] = imageBuf[i];"))
M("w11-width-first", "W01", (WW, "            let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length);\n            let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteColors.length);\n\n            for (let i = 0; i < paletteColors.length; i++) {\n                paletteBuf[i * 3] = paletteColors[i][0];\n                paletteBuf[i * 3 + 1] = paletteColors[i][1];\n                paletteBuf[i * 3 + 2] = paletteColors[i][2];\n            }\n            let width = wasmInst.exports.get_decomposed_image_width(decompImagePtr);\n            let height = wasmInst.exports.get_decomposed_image_height(decompImagePtr);\n            let imagePtr = wasmInst.exports.create_image_buffer(width * height * 3);\n", "            let width = wasmInst.exports.get_decomposed_image_width(decompImagePtr);\n            let height = wasmInst.exports.get_decomposed_image_height(decompImagePtr);\n            let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length);\n            let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteColors.length);\n            let imagePtr = wasmInst.exports.create_image_buffer(width * height * 3);\n\n            for (let i = 0; i < paletteColors.length; i++) {\n                paletteBuf[i * 3] = paletteColors[i][0];\n                paletteBuf[i * 3 + 1] = paletteColors[i][1];\n                paletteBuf[i * 3 + 2] = paletteColors[i][2];\n            }\n"))
M("w12-free-after-await", "W01 W02", (WW, "                wasmInst.exports.free_image_buffer(width * height, imagePtr);\n                let blob = await createBlobForArray(outputArray, width, height);\n                this.sendResponse(id, blob);\n            } else {\n                wasmInst.exports.free_image_buffer(width * height, imagePtr);", "                let blob = await createBlobForArray(outputArray, width, height);\n                this.sendResponse(id, blob);\n                wasmInst.exports.free_image_buffer(width * height, imagePtr);\n            } else {\n                wasmInst.exports.free_image_buffer(width * height, imagePtr);"))
M("w13-err-buf", "W01", (WW, "            } catch (e) {\n                wasmInst.exports.free_image_buffer(width * height, imagePtr);\n                throw e;\n            }", "            } catch (e) {\n                throw e;\n            }"))
M("w14-wh-blob", "W01", (WW, "let imageData = new ImageData(array, width, height);", "let imageData = new ImageData(array, height, width);"))
M("w15-unknown", "W01", (WW, "            this.sendError(id, \"Unknown method.\");", "            this.sendResponse(id, undefined);"))
M("w16-palette-8", "W01", (WW, "                    paletteBuf[i * 3 + 2],\n                ])", "                    paletteBuf[i * 3 + 2] & 0xfe,\n                ])"))
M("w17-minmax", "W01 W03", (WW, "                    minPaletteSize,\n                    maxPaletteSize,\n                    errorBound,", "                    minPaletteSize,\n                    Math.max(minPaletteSize, maxPaletteSize),\n                    errorBound,"))
M("w18-noerror-fail", "W01", (WW, "                this.sendError(id, \"Invalid palette size\");", "                this.sendResponse(id, undefined);"))
M("w19-free-order", "W01", (WW, "            wasmInst.exports.free_image_weights(ptr);", "            if (ptr % 8 == 0) wasmInst.exports.free_image_weights(ptr);"))
M("w20-shared-buffer", "W01", (WW, "class RecoloringThreadWorker extends ThreadWorker {", "let lastWidth = 0, lastHeight = 0;\nclass RecoloringThreadWorker extends ThreadWorker {"), (WW, "                let blob = await createBlobForArray(outputArray, width, height);\n                this.sendResponse(id, blob);\n            } else {\n                wasmInst.exports.free_image_buffer(width * height, imagePtr);", "                this.lastId = id;\n                let blob = await createBlobForArray(outputArray, width, height);\n                this.sendResponse(this.lastId, blob);\n            } else {\n                wasmInst.exports.free_image_buffer(width * height, imagePtr);"))
# --- page
M("j01-revoke-order", "W02", (JS, "            if (paletteDiv.children[\"palette-img\"].src.length != 0) {\n                URL.revokeObjectURL(paletteDiv.children[\"palette-img\"].src);\n            }\n            paletteDiv.children[\"palette-img\"].src = url;", "            paletteDiv.children[\"palette-img\"].src = url;\n            if (i > 4) URL.revokeObjectURL(url);"))
M("j02-no-revoke", "W02", (JS, "            if (paletteWrapper.firstElementChild.children[\"palette-img\"].src.length != 0) {\n                URL.revokeObjectURL(paletteWrapper.firstElementChild.children[\"palette-img\"].src);\n            }\n", ""))
M("j03-runjob-noqueue", "W02", (JS, "    g_lastJob = g_lastJob.then(async () => {", "    g_lastJob = Promise.resolve().then(async () => {"))
M("j04-busy", "W02", (JS, "        } finally {\n            g_unfinishedJobs -= 1;\n            updateBusy();\n        }", "        }\n        g_unfinishedJobs -= 1;\n        updateBusy();"))
M("j05-busy2", "W02", (JS, "        } catch (e) {\n            console.error(e);\n        } finally {", "        } finally {"))
M("j06-undefined", "W02", (JS, "            args: [g_imageWeightsPtr],\n        })\n        g_imageWeightsPtr = undefined;", "            args: [g_imageWeightsPtr],\n        })"))
M("j07-free-decomp", "W02", (JS, "            args: [g_deconstructedImagePtr],\n        })\n        g_deconstructedImagePtr = undefined;\n    }\n\n    let array", "            args: [g_deconstructedImagePtr],\n        })\n    }\n\n    let array"))
M("j08-set-before", "W02", (JS, "        if (!decomposedImagePtr) {\n            throw new Error(\"Invalid palette\");\n        }\n", ""))
M("j09-guard", "W02", (JS, "    if (g_imageWeightsPtr == undefined) {\n        throw new Error(\"There is no usable image\");\n    }\n", ""))
M("j10-example", "W02", (JS, "        if (srcImg.src.length == 0) {\n            srcImg.src", "        {\n            srcImg.src"))
M("j11-picker-revoke", "W02", (JS, "        if (srcImg.src.length != 0) {\n            URL.revokeObjectURL(srcImg.src);\n        }\n", ""))
M("j12-dst-revoke", "W02", (JS, "    if (dstImg.src.length != 0) {", "    if (dstImg.src.length > 20) {"))
M("j13-palette-cmp", "W02", (JS, "currentPaletteColors != g_savedDecompositionPalette", "currentPaletteColors.length != g_savedDecompositionPalette?.length"))
M("j14-palette-cmp2", "W02", (JS, "g_imageWeightsPtr == undefined || currentPaletteColors != g_savedDecompositionPalette", "g_deconstructedImagePtr == undefined || JSON.stringify(currentPaletteColors) != JSON.stringify(g_savedDecompositionPalette)"))
M("j15-shorten", "W02 W03", (JS, "    if (paletteWrapper.children.length > paletteColors.length) {\n        while (paletteWrapper.children.length > paletteColors.length) {", "    if (paletteWrapper.children.length > paletteColors.length) {\n        if (paletteWrapper.children.length > paletteColors.length) {"))
M("j16-dst-src", "W03", (JS, "        paletteDiv.children[\"palette-dst-color\"].value = colorValuesToString(paletteColors[i]);", "        if (paletteDiv.children[\"palette-img\"].src.length == 0) paletteDiv.children[\"palette-dst-color\"].value = colorValuesToString(paletteColors[i]);"))
M("j17-pad", "W03", (JS, "    if (part3.length < 2) {", "    if (part3.length < 1) {"))
M("j18-upper", "W03", (JS, "'0123456789abcdefABCDEF'", "'0123456789abcdefABCDE'"))
M("j19-len", "W03", (JS, "value[0] == '#' && value.length == 7", "value[0] == '#' && value.length <= 7"))
M("j20-parse", "W03", (JS, "const paletteErrorBound = parseFloat(paletteErrorBoundField.value);", "const paletteErrorBound = parseInt(paletteErrorBoundField.value);"))
M("j22-oninput", "W03 W02", (JS, "        paletteDiv.children[\"palette-dst-color-txt\"].oninput = textInputUpdateColorInput;", "        if (i < 6) paletteDiv.children[\"palette-dst-color-txt\"].oninput = textInputUpdateColorInput;"))
M("j23-decomp-after-guard", "W02", (JS, "            await thread.sendRequest({\n                method: \"freeDecomposedImage\",\n                args: [g_deconstructedImagePtr],\n            })\n            g_deconstructedImagePtr = undefined;\n        }\n        const decomposedImagePtr", "            thread.sendRequest({\n                method: \"freeDecomposedImage\",\n                args: [g_deconstructedImagePtr],\n            })\n        }\n        const decomposedImagePtr"))
M("j24-load-offscreen", "W02", (JS, "    offscreenImg.src = srcImg.src;\n    if (g", "    if (g_unfinishedJobs < 3) offscreenImg.src = srcImg.src;\n    if (g"))
M("j25-palette-old-array", "W02 W03", (JS, "async function recomputePalette(array) {\n    console.log(\"recomputePalette\");\n    if (array === undefined) {\n        array = await computeSrcImageArray();\n    }", "let g_arr;\nasync function recomputePalette(array) {\n    if (array === undefined && g_arr && g_arr.length == 4 * offscreenImg.width * offscreenImg.height) {\n        array = g_arr.slice();\n    } else if (array === undefined) {\n        array = await computeSrcImageArray();\n    }\n    g_arr = array.slice();"))
M("j26-transferred", "W02", (JS, "    array = await recomputeImageWeights(array);\n    await recomputePalette(array);", "    await recomputeImageWeights(array);\n    await recomputePalette(array);"))
M("j27-dst-stale", "W02", (JS, "    const reconstructionPaletteColors = [];\n    for (const paletteNode of paletteWrapper.children) {\n        const value = paletteNode.children[\"palette-dst-color\"].value;", "    const reconstructionPaletteColors = [];\n    for (const paletteNode of paletteWrapper.children) {\n        const value = paletteNode.children[\"palette-dst-color-txt\"].value;"))
M("j29-channel-parallel", "W02", (JS, "            const blob = await thread.sendRequest({\n                method: \"grayscaleImageChannel\",\n                args: [g_deconstructedImagePtr, i],\n            });\n            const url = URL.createObjectURL(blob);\n            if (paletteDiv.children[\"palette-img\"].src.length != 0) {\n                URL.revokeObjectURL(paletteDiv.children[\"palette-img\"].src);\n            }\n            paletteDiv.children[\"palette-img\"].src = url;", "            thread.sendRequest({\n                method: \"grayscaleImageChannel\",\n                args: [g_deconstructedImagePtr, i],\n            }).then((blob) => {\n            const url = URL.createObjectURL(blob);\n            if (paletteDiv.children[\"palette-img\"].src.length != 0) {\n                URL.revokeObjectURL(paletteDiv.children[\"palette-img\"].src);\n            }\n            paletteDiv.children[\"palette-img\"].src = url;\n            });"))
M("j30-hex-parse", "W03", (JS, "        const value = paletteNode.children[\"palette-src-color\"].value;\n        const valueList = [\n            parseInt(value[1] + value[2], 16),\n            parseInt(value[3] + value[4], 16),", "        const value = paletteNode.children[\"palette-src-color\"].value;\n        const valueList = [\n            parseInt(value[1] + value[2], 16),\n            parseInt(value[3] + value[3], 16),"))
M("j31-text-picker", "W03", (JS, "        event.target.previousElementSibling.value = event.target.value;", "        event.target.previousElementSibling.value = event.target.value.toLowerCase().replace('fe', 'ff');"))

M("j33-picker-same", "W02", (JS, "        var selectedFile = event.target.files[0];\n", "        var selectedFile = event.target.files[0];\n        if (g_unfinishedJobs > 0) return;\n"))
# --- behaviour-preserving edits
M("eq01-async", "=W01 W02 W03", (JS, "    await g_lastJob;\n}", "    return g_lastJob;\n}"))
M("eq02-inline", "=W02 W03", (JS, "function updateBusy() {\n    const busy = g_unfinishedJobs > 0;\n    dstSpinner.style.visibility = busy ? \"visible\" : \"hidden\";", "function updateBusy() {\n    const busy = g_unfinishedJobs !== 0;\n    if (busy) {\n        dstSpinner.style.visibility = \"visible\";\n    } else {\n        dstSpinner.style.visibility = \"hidden\";\n    }"))
M("eq03-helper", "=W01 W02", (WW, "            let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length);\n            let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteColors.length);\n\n            for (let i = 0; i < paletteColors.length; i++) {\n                paletteBuf[i * 3] = paletteColors[i][0];\n                paletteBuf[i * 3 + 1] = paletteColors[i][1];\n                paletteBuf[i * 3 + 2] = paletteColors[i][2];\n            }\n\n            let decomposedImagePtr;", "            let flat = paletteColors.flat();\n            let palettePtr = wasmInst.exports.create_image_buffer(flat.length);\n            new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, flat.length).set(flat);\n\n            let decomposedImagePtr;"))
M("eq04-regex", "=W03 W02", (JS, "    let isValidHexString = value[0] == '#' && value.length == 7;\n\n    for (let i = 1; i < value.length; i++) {\n        if (!'0123456789abcdefABCDEF'.includes(value[i])) {\n            isValidHexString = false;\n            break;\n        }\n    }\n\n    if (isValidHexString) {", "    if (/^#[0-9a-f]{6}$/i.test(value) && value.length == 7) {"))
M("eq05-pad", "=W03", (JS, "    let part3 = values[2].toString(16);\n    if (part3.length < 2) {\n        part3 = \"0\" + part3;\n    }", "    const part3 = values[2].toString(16).padStart(2, \"0\");"))
M("eq06-free-order", "=W02", (JS, "        g_deconstructedImagePtr = undefined;\n    }\n\n    let array = computeSrcImageArray();", "        g_deconstructedImagePtr = undefined;\n    }\n\n    const pixels = computeSrcImageArray();\n    let array = pixels;"))
M("eq07-append", "=W02 W03", (JS, "            const child = paletteElementTemplate.firstElementChild.cloneNode(true);\n            paletteWrapper.appendChild(child);", "            paletteWrapper.append(paletteElementTemplate.firstElementChild.cloneNode(true));"))
M("eq08-remove", "=W02 W03", (JS, "            paletteWrapper.removeChild(paletteWrapper.firstElementChild);", "            paletteWrapper.firstElementChild.remove();"))
M("eq09-spread", "=W02 W03", (JS, "    for (let i = 0; i < paletteWrapper.children.length; i++) {\n        const paletteDiv = paletteWrapper.children[i];\n\n        // Clear", "    for (const [i, paletteDiv] of [...paletteWrapper.children].entries()) {\n        // Clear"))
M("eq10-qs", "=W02 W03", (JS, "const dstSpinner = document.getElementById(\"dst-spinner\");", "const dstSpinner = document.querySelector(\"#dst-spinner\");"))
M("eq11-listener", "=W02 W03", (JS, "        paletteDiv.children[\"palette-src-color-txt\"].oninput = undefined;", "        paletteDiv.children[\"palette-src-color-txt\"].oninput = null;"))
M("eq12-switch", "=W01", (WW, "        if (method == \"createImageWeights\") {\n            let [array, width, height] = args;", "        if (method === \"createImageWeights\") {\n            const [array, width, height] = args;\n            const size = width * height * 3;\n            void size;"))
M("eq13-slice", "=W01", (WW, "            let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteSize);\n            let palette = [];\n            for (let i = 0; i < paletteSize; i++) {\n                palette.push([\n                    paletteBuf[i * 3],\n                    paletteBuf[i * 3 + 1],\n                    paletteBuf[i * 3 + 2],\n                ])\n            }", "            let paletteBuf = new Uint8Array(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteSize).slice();\n            let palette = Array.from({ length: paletteSize }, (_, i) => Array.from(paletteBuf.subarray(3 * i, 3 * i + 3)));"))
M("eq14-dataset", "=W02", (JS, "    const url = URL.createObjectURL(blob);\n    if (dstImg.src.length != 0) {\n        URL.revokeObjectURL(dstImg.src);\n    }\n    dstImg.src = url;", "    const old = dstImg.src;\n    dstImg.src = URL.createObjectURL(blob);\n    if (old !== \"\") {\n        URL.revokeObjectURL(old);\n    }"))
