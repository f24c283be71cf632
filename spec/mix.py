"""What a NISO MIX record (version 1.0 or 2.0) has to state about a JPEG 2000 image."""


def record(p, version):
    """Leaves [(path, text)] in the order of the MIX schema.  p: the properties as reported:
    brand, transformation, ratio (float), width, height, icc (colour space, name) or None, enumcs or
    None, codec (name, version) or None, xTsiz, yTsiz, layers, levels, capture (dict) or None,
    resolution (x, y in hundredths of pixels per metre) or None, depths, components."""
    out = []
    a = '/mix:BasicDigitalObjectInformation'
    out.append((a + '/mix:FormatDesignation/mix:formatName', 'image/' + p['brand']))
    out.append((a + '/mix:byteOrder', 'big_endian' if version == 1 else 'big endian'))
    a = a + '/mix:Compression'
    out.append((a + '/mix:compressionScheme', 'JPEG 2000 Lossless'
                if p['transformation'] == '5-3 reversible' else 'JPEG 2000 Lossy'))
    if version == 1:
        out.append((a + '/mix:compressionRatio', str(int(round(p['ratio'])))))
    else:
        out.append((a + '/mix:compressionRatio/mix:numerator', str(int(round(p['ratio'] * 100)))))
        out.append((a + '/mix:compressionRatio/mix:denominator', '100'))
    b = '/mix:BasicImageInformation'
    a = b + '/mix:BasicImageCharacteristics'
    out.append((a + '/mix:imageWidth', p['width']))
    out.append((a + '/mix:imageHeight', p['height']))
    a = a + '/mix:PhotometricInterpretation'
    if p['icc'] is not None:
        out.append((a + '/mix:colorSpace', p['icc'][0]))
        if p['icc'][1] is not None:
            out.append((a + '/mix:ColorProfile/mix:IccProfile/mix:iccProfileName', p['icc'][1]))
    elif p['enumcs'] is not None:
        out.append((a + '/mix:colorSpace', p['enumcs']))
    a = b + '/mix:SpecialFormatCharacteristics/mix:JPEG2000'
    if p['codec'] is not None:
        out.append((a + '/mix:CodecCompliance/mix:codec', p['codec'][0]))
        out.append((a + '/mix:CodecCompliance/mix:codecVersion', p['codec'][1]))
    a = a + '/mix:EncodingOptions'
    if version == 1:
        out.append((a + '/mix:tiles', p['xTsiz'] + 'x' + p['yTsiz']))
    else:
        out.append((a + '/mix:Tiles/mix:tileWidth', p['xTsiz']))
        out.append((a + '/mix:Tiles/mix:tileHeight', p['yTsiz']))
    if p['layers'] != '0':
        out.append((a + '/mix:qualityLayers', p['layers']))
    if p['levels'] != '0':
        out.append((a + '/mix:resolutionLevels', p['levels']))
    c = p['capture']
    if c is not None:
        a = '/mix:ImageCaptureMetadata/mix:GeneralCaptureInformation'
        for k, t in (('CreateDate', 'dateTimeCreated'), ('Artist', 'imageProducer')):
            if k in c:
                out.append((a + '/mix:' + t, c[k].strip()))
        a = '/mix:ImageCaptureMetadata/mix:ScannerCapture'
        for k, t in (('Make', 'scannerManufacturer'), ('Model', 'ScannerModel/mix:scannerModelName'),
                     ('SerialNumber', 'ScannerModel/mix:scannerModelSerialNo')):
            if k in c:
                out.append((a + '/mix:' + t, c[k].strip()))
        if 'software' in c:
            a = a + '/mix:ScanningSystemSoftware'
            out.append((a + '/mix:scanningSoftwareName', c['software'][0]))
            if c['software'][1] is not None:
                out.append((a + '/mix:scanningSoftwareVersionNo', c['software'][1]))
    b = '/mix:ImageAssessmentMetadata'
    a = b + '/mix:SpatialMetrics'
    if p['resolution'] is not None:
        out.append((a + '/mix:samplingFrequencyUnit', '3' if version == 1 else 'cm'))
        for k, t in ((0, 'x'), (1, 'y')):
            out.append((a + '/mix:%sSamplingFrequency/mix:numerator' % t,
                        str(p['resolution'][k])))
            out.append((a + '/mix:%sSamplingFrequency/mix:denominator' % t, '10000'))
    a = b + '/mix:ImageColorEncoding'
    if version == 1:
        out.append((a + '/mix:bitsPerSample/mix:bitsPerSampleValue', ','.join(p['depths'])))
        out.append((a + '/mix:bitsPerSample/mix:bitsPerSampleUnit', 'integer'))
    else:
        for d in p['depths']:
            out.append((a + '/mix:BitsPerSample/mix:bitsPerSampleValue', d))
        out.append((a + '/mix:BitsPerSample/mix:bitsPerSampleUnit', 'integer'))
    out.append((a + '/mix:samplesPerPixel', p['components']))
    return out
