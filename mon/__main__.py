from mon.fw import main

main()
