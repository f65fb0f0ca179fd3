"""Which specification modules and drivers decide which property."""
def part(spec, driver=None, mc=True):
    return dict(spec=spec, driver=driver or spec.lower(), mc=mc)

CHECKS = {
 'C01': dict(parts=[part('Study')]),
 'C02': dict(parts=[part('Study')]),
 'C03': dict(parts=[part('Study')]),
 'C05': dict(parts=[part('Backup')]),
 'C06': dict(parts=[part('SqlDb')]),
 'C04': dict(parts=[part('Template')]),
 'C38': dict(parts=[part('TextConv')]),
 'C08': dict(parts=[part('Getters'), part('StructGetters')]),
 'C09': dict(parts=[part('Crys')]),
 'C10': dict(parts=[part('Crys')]),
 'C11': dict(parts=[part('Crys')]),
 'C12': dict(parts=[part('Crys')]),
 'C13': dict(parts=[part('Alias')]),
 'C14': dict(parts=[part('Store')]),
 'C15': dict(parts=[part('Geom')]),
 'C16': dict(parts=[part('Geom')]),
 'C17': dict(parts=[part('Geom')]),
 'C18': dict(parts=[part('Geom')]),
 'C19': dict(parts=[part('Trans')]),
 'C20': dict(parts=[part('Cell')]),
 'C21': dict(parts=[part('ArrayIO', 'textarray')]),
 'C35': dict(parts=[part('Timer')]),
 'C22': dict(parts=[part('Files', 'structfiles')]),
 'C41': dict(parts=[part('Files', 'structfiles')]),
 'C23': dict(parts=[part('Pw', 'pwout')]),
 'C24': dict(parts=[part('Cpmd', 'cpmdout')]),
 'C25': dict(parts=[part('Cp2k', 'cp2kout')]),
 'C26': dict(parts=[part('Lmp', 'lmpout')]),
 'C27': dict(parts=[part('Dcd', 'dcdfile')]),
 'C28': dict(parts=[part('Units', 'parseriso')]),
 'C29': dict(parts=[part('Cut', 'cutrun')]),
 'C30': dict(parts=[part('Arr', 'arrhelp')]),
 'C31': dict(parts=[part('Grid', 'grid2d')]),
 'C32': dict(parts=[part('Corr', 'corrpdos')]),
 'C42': dict(parts=[part('Corr', 'corrpdos')]),
 'C33': dict(parts=[part('Sig', 'sigproc')]),
 'C34': dict(parts=[part('Calc', 'calcs')]),
 'C36': dict(parts=[part('Rand', 'randst')]),
 'C37': dict(parts=[part('Qe', 'qetext')]),
 'C39': dict(parts=[part('Fit', 'fitint')]),
 'C07': dict(parts=[part('Loops', 'loops')]),
 'C40': dict(parts=[part('Thermo', 'thermoeos')]),
 'C43': dict(parts=[part('Sym', 'symm')]),
 'C44': dict(parts=[part('Fir', 'fir')]),
 'C45': dict(parts=[part('View', 'view')]),
 'C46': dict(parts=[part('Plot', 'plots')]),
 'C47': dict(parts=[part('Conv', 'convert')]),
 'C48': dict(parts=[part('Const', 'consts')]),
}
