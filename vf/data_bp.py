"""Seeds giving a Brainpool curve at once (tools/gen_brainpool.py); reach only."""
SEEDS = [(False, 160, '54af72ccae91dedda64ae0b437086676b5735eb3'), (False, 160, '77e25027075dcb322ef665855e2843a9f2da4848'), (False, 161, '54af72ccae91dedda64ae0b437086676b57363ef'), (False, 161, '77e25027075dcb322ef665855e2843a9f2da4168'), (False, 162, '54af72ccae91dedda64ae0b437086676b5735c9f'), (False, 162, '77e25027075dcb322ef665855e2843a9f2da416f'), (False, 168, '54af72ccae91dedda64ae0b437086676b5735f1d'), (False, 168, '77e25027075dcb322ef665855e2843a9f2da49ee'), (False, 175, '54af72ccae91dedda64ae0b437086676b5736328'), (False, 175, '77e25027075dcb322ef665855e2843a9f2da41a4'), (False, 184, '54af72ccae91dedda64ae0b437086676b573614e'), (False, 184, '77e25027075dcb322ef665855e2843a9f2da3f67'), (False, 192, '54af72ccae91dedda64ae0b437086676b57361f2'), (False, 192, '77e25027075dcb322ef665855e2843a9f2da49e6'), (False, 200, '54af72ccae91dedda64ae0b437086676b5735e75'), (False, 200, '77e25027075dcb322ef665855e2843a9f2da4259'), (False, 224, '54af72ccae91dedda64ae0b437086676b573875e'), (False, 224, '77e25027075dcb322ef665855e2843a9f2da515d'), (False, 256, '60405377f6d2195d4b824a41da76b9973daec8a2'), (False, 320, '60405377f6d2195d4b824a41da76b9973daecb01'), (True, 160, '54af72ccae91dedda64ae0b437086676b5735b14'), (True, 160, '77e25027075dcb322ef665855e2843a9f2da40b3'), (True, 161, '54af72ccae91dedda64ae0b437086676b5735b25'), (True, 161, '77e25027075dcb322ef665855e2843a9f2da4bcc'), (True, 162, '54af72ccae91dedda64ae0b437086676b5735cc5'), (True, 162, '77e25027075dcb322ef665855e2843a9f2da4e0d'), (True, 168, '54af72ccae91dedda64ae0b437086676b57360de'), (True, 168, '77e25027075dcb322ef665855e2843a9f2da47c7'), (True, 175, '54af72ccae91dedda64ae0b437086676b5735f01'), (True, 175, '77e25027075dcb322ef665855e2843a9f2da4f51'), (True, 184, '54af72ccae91dedda64ae0b437086676b5735d6b'), (True, 184, '77e25027075dcb322ef665855e2843a9f2da4548'), (True, 192, '54af72ccae91dedda64ae0b437086676b5735de1'), (True, 192, '77e25027075dcb322ef665855e2843a9f2da445f'), (True, 200, '54af72ccae91dedda64ae0b437086676b573639e'), (True, 200, '77e25027075dcb322ef665855e2843a9f2da405f'), (True, 224, '54af72ccae91dedda64ae0b437086676b5736586'), (True, 224, '77e25027075dcb322ef665855e2843a9f2da3f64'), (True, 256, '60405377f6d2195d4b824a41da76b9973daef6a2'), (True, 320, '60405377f6d2195d4b824a41da76b9973daec145')]
